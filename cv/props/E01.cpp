// Bounded stand-in for the whole boolean operation: E01 <mode> <seed> <start> <count>
#include "region.hpp"
#include <csignal>
#include <unistd.h>
#include <set>
#include <string>
using namespace oracle;
static std::vector<L> S, C; static int OP; static const char *MODE = ""; static char CUR[1 << 16];
static std::string text() { std::string r = "op=" + std::string(OP == 0 ? "union" : OP == 1 ? "intersection" : OP == 2 ? "xor" : OP == 3 ? "difference" : "normalize"); for(int k=0; k<2; ++k) for(auto &l : k ? C : S) { r += k ? " clip:" : " subject:"; for(P p : l) r += "{" + std::to_string(p.x) + "," + std::to_string(p.y) + "}"; } return r; }
static void die(int sig) { const char *m = sig == SIGALRM ? "FAIL does not end: " : sig == SIGABRT ? "FAIL aborts: " : "FAIL crashes: "; auto o = [](const char *s) { std::size_t n = 0; while(s[n]) ++n; if(write(1,s,n)) {} }; o(m); o(MODE); o(" "); o(CUR); o("\n"); _exit(3); }
static const char *what[] = {"","two output lines cross","the winding number of the output is neither 0 nor 1 beside a line","the output region differs from the operation","tree output: a loop lies outside of its parent or inside of a sibling","tree output: wrong orientation for its depth","","tree and flat output cover different regions","an output line has no length","","size() differs from the number of points"};
template<class Coord,class Index> int one(i64 tol,int samples,std::uint64_t seed,Bad &bad,poly_ops::clipper<Coord,Index> *reuse) { return check<Coord,Index>(S,C,OP,tol,samples,seed,bad,reuse); }
static long evals = 0, nontriv = 0; static std::set<std::size_t> seen;
template<class Coord,class Index=std::size_t> bool run(i64 tol,int samples,std::uint64_t seed,poly_ops::clipper<Coord,Index> *reuse=nullptr) {
    std::string t = text(); std::size_t n = std::min(t.size(),sizeof(CUR)-1); for(std::size_t i=0; i<n; ++i) CUR[i] = t[i]; CUR[n] = 0;
    Bad bad{}; alarm(20); int e = check<Coord,Index>(S,C,OP,tol,samples,seed,bad,reuse); alarm(0); ++evals;
    if(last_points > 0 && last_new > 0 && seen.insert(std::hash<std::string>{}(t)).second) { ++nontriv; if(nontriv % 5000 == 7) std::printf("SAMPLE %s\n",t.substr(0,600).c_str()); }
    if(e) { std::printf("FAIL %s: %s at {%ld,%ld} (subject %d clip %d): %s\n",MODE,what[e],long(bad.at.x),long(bad.at.y),bad.a,bad.b,t.c_str()); return false; }
    return true;
}
static std::vector<L> triangles(int n) { std::vector<L> r; auto p = [&](int i) { return P{i % n,i / n}; }; for(int a=0; a<n*n; ++a) for(int b=a+1; b<n*n; ++b) for(int c=a+1; c<n*n; ++c) if(b != c) r.push_back({p(a),p(b),p(c)}); return r; }
static L scaled(L l,i64 k,i64 ox,i64 oy) { for(auto &p : l) { p.x = p.x*k + ox; p.y = p.y*k + oy; } return l; }
int main(int argc,char **argv) {
    for(int s : {SIGABRT,SIGSEGV,SIGFPE,SIGALRM,SIGBUS}) std::signal(s,die);
    int mode = std::atoi(argv[1]); std::uint64_t seed = std::strtoull(argv[2],0,10); long start = std::atol(argv[3]), count = std::atol(argv[4]); bool ok = true;
    if(mode == 0) {             // all pairs of triangles on an n by n grid, four operations
        MODE = "triangle pairs"; int n = int(count); auto t = triangles(n); const i64 K = 2520; long stripes = std::atol(argv[5]);
        for(long i=start; ok && i<long(t.size()*t.size()); i += stripes) { S = {scaled(t[std::size_t(i)/t.size()],K,0,0)}; C = {scaled(t[std::size_t(i)%t.size()],K,0,0)}; for(OP=0; ok && OP<4; ++OP) ok = run<int>(8,24,seed+std::uint64_t(i)); }
    } else if(mode == 9) {      // all closed polygons of n points on a 3 by 3 grid (starting at 0..2), union and normalize
        MODE = "self-intersecting polygons"; int n = int(count); long stripes = std::atol(argv[5]), tot = 1; for(int i=0; i<n; ++i) tot *= 9; C = {};
        for(long i=start; ok && i<tot; i += stripes) { L l; long v = i; for(int k=0; k<n; ++k) { l.push_back({2520*(v % 3),2520*(v/3 % 3)}); v /= 9; } S = {l}; for(int o=0; ok && o<2; ++o) { OP = o*4; ok = run<int>(8,16,seed+std::uint64_t(i)); } }
    } else if(mode == 20) {     // recorded input: tree output of overlapping lines
        MODE = "recorded"; S = {{{0,3},{3,4},{4,1}},{{0,3},{0,1},{1,0},{2,2},{0,2},{3,0},{2,0}}}; C = {{{0,2},{4,4},{4,1},{0,4}},{{1,0},{0,2},{0,1},{4,1},{0,2},{3,3}}}; OP = 2; std::string t = text(); std::copy(t.begin(),t.end(),CUR);
        std::vector<std::vector<poly_ops::point_t<int>>> in[2]; for(int k=0; k<2; ++k) for(auto &l : k ? C : S) { in[k].emplace_back(); for(P p : l) in[k].back().push_back({int(p.x),int(p.y)}); }
        std::size_t n = 0; for(auto &&l : poly_ops::boolean_op<true,int>(in[0],in[1],poly_ops::bool_op::xor_)) n += l.size();
    } else if(mode == 21) {     // recorded input: coordinates beyond the precision of double
        MODE = "recorded"; const i64 K = 72057594037928473; S = {{{2,0},{K,0},{2,-K},{2*K,K}},{{K+1,-K},{-K+2,0},{K+2,2*K}}}; C = {{{2*K,2*K},{1,0},{-K+2,0},{2*K+2,2*K},{0,0},{K,K},{K+2,-K},{2*K+1,0},{-K+2,K}}}; OP = 1; alarm(5);
        std::vector<std::vector<poly_ops::point_t<i64>>> in[2]; for(int k=0; k<2; ++k) for(auto &l : k ? C : S) { in[k].emplace_back(); for(P p : l) in[k].back().push_back({p.x,p.y}); }
        std::size_t n = 0; for(auto &&l : poly_ops::boolean_op<false,i64>(in[0],in[1],poly_ops::bool_op::intersection)) n += l.size();
    } else {
        poly_ops::clipper<int> re; poly_ops::clipper<int,int> re2;
        for(long i=start; ok && i<start+count; ++i) {
            Rng g{(seed*1000003 + std::uint64_t(i))*2654435761u}; g(); g(); S.clear(); C.clear(); OP = int(g() % 5);
            int G = 2 + int(g() % 9), maxp = 7, loops = 3; i64 K = 1, jit = 0, tol = -1; i64 ox = 0, oy = 0;
            switch(mode) {
            case 1: MODE = "small grid"; if(g() % 2) K = 7; break;
            case 2: MODE = "coarse grid"; K = g() % 2 ? 1000 : 100003; jit = K > 1000 ? 2 : 0; tol = 40; break;
            case 3: MODE = "large coordinates"; K = (i64(1) << (g() % 2 ? 44 : 36)) + i64(g() % 1000); jit = g() % 2 ? K/8 : 0; tol = 4000; ox = -(G/2)*K; oy = ox; break;
            case 4: MODE = "many points"; G = 1000; maxp = 40; K = 1000; loops = 2; tol = 60; break;
            case 5: MODE = "one clipper used again"; K = 1000; tol = 40; break;
            case 6: MODE = "rectilinear"; K = 1000; tol = 0; break;
            case 7: MODE = "many small loops"; loops = 12; maxp = 2; K = 1000; G = 12; tol = 40; break;
            }
            for(int k=0; k<2; ++k) { int nl = int(g() % std::uint32_t(loops)) + (k == 0); for(int j=0; j<nl; ++j) {
                L l; int m = 3 + int(g() % std::uint32_t(maxp));
                if(mode == 6) { i64 x = g() % G, y = g() % G; for(int t=0; t<m; ++t) { l.push_back({x*K,y*K}); (t & 1 ? x : y) = g() % G; } if(m & 1) { l.push_back({l[0].x,l.back().y}); } else l.push_back({l.back().x,l[0].y}); if(l.back().x != l[0].x && l.back().y != l[0].y) l.push_back({l.back().x,l[0].y}); }
                else for(int t=0; t<m; ++t) l.push_back({i64(g() % std::uint32_t(G+1))*K + (jit ? g.in(0,jit) : 0) + ox,i64(g() % std::uint32_t(G+1))*K + oy});
                (k ? C : S).push_back(l); } }
            if(OP == 4 && g() % 2) C.clear();
            if(mode == 3) ok = run<std::int64_t>(tol,24,seed+std::uint64_t(i)); else if(mode == 5) ok = i & 1 ? run<int>(tol,40,seed+std::uint64_t(i),&re) : run<int,int>(tol,40,seed+std::uint64_t(i),&re2); else if(i % 3 == 0) ok = run<int,unsigned>(tol,mode == 4 ? 150 : 40,seed+std::uint64_t(i)); else ok = run<int>(tol,mode == 4 ? 150 : 40,seed+std::uint64_t(i));
        }
    }
    std::printf("STAT %ld %ld\n",evals,nontriv);
    return ok ? 0 : 1;
}
