// Bounded stand-in for offsetting and for origin tracking: E02 <mode> <seed> <start> <count>
#include "region.hpp"
#include <poly_ops/offset.hpp>
#include <csignal>
#include <unistd.h>
#include <set>
#include <string>
#include <array>
#include <forward_list>
using namespace oracle; using namespace poly_ops;
static std::vector<L> S; static double M; static int STEP; static bool CLOSED; static const char *MODE = ""; static char CUR[1 << 16]; static int OP;
static std::string text() { std::string r = "magnitude=" + std::to_string(M) + " step=" + std::to_string(STEP) + (CLOSED ? " closed" : " open") + " op=" + std::to_string(OP); for(auto &l : S) { r += " loop:"; for(P p : l) r += "{" + std::to_string(p.x) + "," + std::to_string(p.y) + "}"; } return r; }
static void die(int sig) { auto o = [](const char *s) { std::size_t n = 0; while(s[n]) ++n; if(write(1,s,n)) {} }; o(sig == SIGALRM ? "FAIL does not end: " : sig == SIGABRT ? "FAIL aborts: " : "FAIL crashes: "); o(MODE); o(" "); o(CUR); o("\n"); _exit(3); }
static long evals, nontriv; static std::set<std::size_t> seen;
static void begin() { std::string t = text(); std::size_t n = std::min(t.size(),sizeof(CUR)-1); std::copy(t.begin(),t.begin()+long(n),CUR); CUR[n] = 0; alarm(20); }
static void count(bool nt) { alarm(0); ++evals; std::string t = CUR; if(nt && seen.insert(std::hash<std::string>{}(t)).second) { ++nontriv; if(nontriv % 2000 == 7) std::printf("SAMPLE %s\n",t.substr(0,500).c_str()); } }
static bool fail(const char *m,P at) { std::printf("FAIL %s: %s at {%ld,%ld}: %s\n",MODE,m,long(at.x),long(at.y),CUR); return false; }
static double dist(P a,P b,P q) { double dx = double(b.x-a.x), dy = double(b.y-a.y), px = double(q.x-a.x), py = double(q.y-a.y), d = dx*dx+dy*dy, t = d ? (px*dx+py*dy)/d : 0; t = std::clamp(t,0.,1.); return std::hypot(px-t*dx,py-t*dy); }
static double dist(const std::vector<L> &s,P q,bool closed) { double r = 1e300; for(auto &l : s) for(std::size_t i=0; i<l.size(); ++i) { if(!closed && i+1 == l.size() && l.size() > 1) break; r = std::min(r,dist(l[i],l[i+1 == l.size() ? 0 : i+1],q)); } return r; }
static double sagitta() { double m = std::abs(M), a = std::min(double(STEP)/m,1.5707963); return m*(1-std::cos(a)); }
template<class Coord> static std::vector<std::vector<point_t<Coord>>> conv() { std::vector<std::vector<point_t<Coord>>> in; for(auto &l : S) { in.emplace_back(); for(P p : l) in.back().push_back({Coord(p.x),Coord(p.y)}); } return in; }
// the offset region of the input against distances
template<class Coord> bool region(int form,Rng &g) {
    begin(); auto in = conv<Coord>(); std::vector<L> out; Bad bad{}; bool exact = true;
    if(form == 0) out = collect<Coord>(offset<false,Coord>(in,M,Coord(STEP),CLOSED));
    else { clipper<Coord> n; if(form == 1) add_offset(n,in,bool_set::subject,M,Coord(STEP),CLOSED); else for(auto &l : in) add_offset_subject(n,l,M,Coord(STEP),CLOSED); out = collect<Coord>(n.template execute<false>(bool_op::union_)); }
    count(!out.empty());
    if(structure(out,true,g,bad)) return fail("lines cross or the winding number is neither 0 nor 1",bad.at);
    double tol = sagitta() + 5; i64 lo = 1e18, hi = -1e18; for(auto &l : S) for(P p : l) { lo = std::min({lo,p.x,p.y}); hi = std::max({hi,p.x,p.y}); } lo -= i64(std::abs(M)*1.3) + 5; hi += i64(std::abs(M)*1.3) + 5;
    for(int k=0; k<60; ++k) {
        P q{g.in(lo,hi),g.in(lo,hi)};
        if(k & 1) { auto &l = S[g() % S.size()]; P a = l[g() % l.size()], b = l[g() % l.size()]; double t = g() % 1000/1000., an = g() % 6283/1000., r = std::abs(M)*(0.6 + g() % 900/1000.); q = {i64(double(a.x)+t*double(b.x-a.x)+r*std::cos(an)),i64(double(a.y)+t*double(b.y-a.y)+r*std::sin(an))}; }
        double d = dist(S,q,CLOSED); bool in_ = CLOSED && wind(S,q) > 0; double sd = in_ ? -d : d;    // signed distance to the solid
        bool on = false; for(auto &l : out) on = on || on_loop(l,q); if(on) continue; bool r = wind(out,q) > 0;
        if(M > 0) { if(sd < M - tol && !r) return fail("a point nearer than the magnitude is not covered",q); if(sd > M + 5 && r) return fail("a point farther than the magnitude is covered",q); }
        else { if(sd > M + tol && r) return fail("a point nearer to the outside than the magnitude is covered",q); if(sd < M - 5 && !r) return fail("a point deeper inside than the magnitude is not covered",q); }
    }
    return true;
}
// a tracker that mirrors the callbacks
template<class Index> struct mirror final : i_point_tracker<Index> {
    struct entry { bool added; Index orig; std::set<Index> set; bool dead; };
    std::vector<entry> e; const char *bad = nullptr; std::size_t between = 0, merges = 0;
    void point_added(Index o) override { e.push_back({true,o,{o},false}); if(between) bad = "point_added after a split"; }
    void new_point_between(Index a,Index b) override { if(std::size_t(a) >= e.size() || std::size_t(b) >= e.size()) bad = "new_point_between: end point index out of range"; e.push_back({false,0,{},false}); ++between; }
    void point_merge(Index f,Index t) override { ++merges; if(std::size_t(f) >= e.size() || std::size_t(t) >= e.size()) { bad = "point_merge: index out of range"; return; } if(f == t) { bad = "point_merge: a point is merged with itself"; return; } if(e[f].dead) bad = "point_merge: a point is discarded twice"; e[t].set.insert(e[f].set.begin(),e[f].set.end()); e[f].dead = true; }
    void reset() override { e.clear(); between = 0; merges = 0; }
    i_point_tracker<Index> *callbacks() { return this; }
    template<class Coord> std::pair<Index,point_t<Coord>> get_value(Index i,const point_t<Coord> &p) const { return {i,p}; }
};
// the callbacks and the origins: op 0-4 on the loops (even: subject, odd: clip), or an offset of them
static bool TREE;
template<class R> static void flatten(const R &r,auto f) { for(auto &&l : r) { for(auto p : l) f(p); if constexpr(requires { l.inner_loops(); }) flatten(l.inner_loops(),f); } }
template<class Coord,class Index> bool origins(Rng &g) {
    begin(); auto in = conv<Coord>(); static tclipper<Coord,Index,mirror<Index>> m; origin_tracked_clipper<Coord,Index> n; tclipper<Coord,Index,mirror<Index>> own; tclipper<Coord,Index,mirror<Index>> &t = g() % 3 ? own : m; std::vector<P> flat; for(auto &l : S) for(P p : l) flat.push_back(p);
    std::size_t mult = in.size();
    for(std::size_t i=0; i<in.size(); ++i) { auto set = i & 1 ? bool_set::clip : bool_set::subject; if(M) { add_offset(n,in[i],set,M,Coord(STEP),CLOSED); add_offset(t,in[i],set,M,Coord(STEP),CLOSED); } else { n.add_loops(in[i],set); t.add_loops(in[i],set); } }
    auto &e = t.tracker.e; std::size_t added = e.size(); bool first = true;
    if(!M) { std::size_t k = 0, o = 0; for(auto &l : S) { std::vector<std::size_t> u; for(std::size_t j=0; j<l.size(); ++j) if(u.empty() || !(l[u.back()] == l[j])) u.push_back(j); while(u.size() > 1 && l[u[0]] == l[u.back()]) u.pop_back(); if(u.size() > 2) for(auto j : u) { if(k >= e.size() || !(flat[std::size_t(e[k].orig)] == l[j])) return fail("point_added does not name the input points in order",l[j]); ++k; } o += l.size(); } if(k != e.size()) return fail("point_added is called for dropped points",{0,0}); }
    std::vector<std::pair<Index,P>> out; auto addo = [&](const auto &p) { out.push_back({p.first,{i64(p.second[0]),i64(p.second[1])}}); };
    if(TREE) flatten(t.template execute<true>(bool_op(OP)),addo); else flatten(t.template execute<false>(bool_op(OP)),addo);
    std::vector<std::pair<P,std::vector<Index>>> org; auto addg = [&](const auto &p) { org.push_back({{i64(p.p[0]),i64(p.p[1])},{p.original_points.begin(),p.original_points.end()}}); };
    if(&t == &own) { if(TREE) flatten(n.template execute<true>(bool_op(OP)),addg); else flatten(n.template execute<false>(bool_op(OP)),addg); }
    count(!out.empty() && t.tracker.merges > 0);
    if(t.tracker.bad) return fail(t.tracker.bad,{0,0});
    std::set<Index> used;
    for(std::size_t k=0; k<out.size(); ++k) { auto [i,p] = out[k];
        if(std::size_t(i) >= e.size()) return fail("an output point has no tracked index",p); if(e[i].dead) return fail("a discarded point is output",p); if(!used.insert(i).second) return fail("a point is output twice",p);
        if(e[i].added) { if(std::size_t(e[i].orig) >= flat.size()) return fail("the origin is no index of an input point",p); P q = flat[std::size_t(e[i].orig)]; double d = std::hypot(double(q.x-p.x),double(q.y-p.y)); if(M ? std::abs(d-std::abs(M)) > sagitta() + 2 : d != 0) return fail("the origin is not the input point this point comes from",p); }
        if(&t == &own) { if(k >= org.size() || !(org[k].first == p)) return fail("output differs between trackers",p); if(!std::equal(org[k].second.begin(),org[k].second.end(),e[i].set.begin(),e[i].set.end())) return fail("origin_point_tracker lists other origins than were merged into the point",p); }
    }
    // the origins of a discarded point go on to the point that follows it (reversed and discarded lines may lose those of their end point)
    if(!TREE && OP != int(bool_op::difference)) for(std::size_t i=0; i<e.size(); ++i) if(!e[i].dead && !used.count(Index(i))) return fail("a point is neither merged into another point nor output: point number",{i64(i),0});
    return true;
}
static L star(Rng &g,int n,i64 rmin,i64 rmax,i64 cx,i64 cy) { L l; for(int i=0; i<n; ++i) { double a = 6.283185307*(i + (g() % 800)/1000.)/n, r = double(g.in(rmin,rmax)); l.push_back({cx + i64(r*std::cos(a)),cy + i64(r*std::sin(a))}); } return l; }
int main(int argc,char **argv) {
    for(int s : {SIGABRT,SIGSEGV,SIGFPE,SIGALRM,SIGBUS}) std::signal(s,die);
    int mode = std::atoi(argv[1]); std::uint64_t seed = std::strtoull(argv[2],0,10); long start = std::atol(argv[3]), cnt = std::atol(argv[4]); bool ok = true;
    for(long i=start; ok && i<start+cnt; ++i) {
        Rng g{(seed*1000003 + std::uint64_t(i))*2654435761u}; g(); g(); S.clear(); OP = 0; CLOSED = true; M = double(g.in(20,1500)) + g() % 4/4.; STEP = int(g.in(3,200));
        switch(mode) {
        case 1: MODE = "convex polygon"; S = {star(g,3 + int(g() % 9),4000,4000,g.in(-9000,9000),g.in(-9000,9000))}; break;
        case 2: MODE = "convex polygon, inset"; S = {star(g,3 + int(g() % 9),5000,5000,g.in(-9000,9000),g.in(-9000,9000))}; M = -M; break;
        case 3: MODE = "star"; S = {star(g,4 + int(g() % 6),3000,9000,g.in(-9000,9000),g.in(-9000,9000))}; break;
        case 4: MODE = "star, inset"; S = {star(g,4 + int(g() % 6),3000,9000,0,0)}; M = -M; break;
        case 5: MODE = "open lines"; CLOSED = false; for(int k=1+int(g() % 2); k; --k) { L l; for(int n=1+int(g() % 6); n; --n) l.push_back({g.in(0,9000),g.in(0,9000)}); S.push_back(l); } break;
        case 6: MODE = "points and two-point loops"; for(int k=1+int(g() % 3); k; --k) { L l; for(int n=1+int(g() % 2); n; --n) l.push_back({g.in(0,4000),g.in(0,4000)}); S.push_back(l); } CLOSED = g() % 2; break;
        case 7: MODE = "polygon with a hole"; { auto a = star(g,8,8000,9000,0,0), b = star(g,5,3000,4000,0,0); std::reverse(b.begin(),b.end()); S = {a,b}; if(g() % 2) M = -M; } break;
        case 11: MODE = "origins"; M = 0; OP = int(g() % 5); { int G = 2 + int(g() % 8); i64 K = g() % 2 ? 1 : 1000; for(int k=1+int(g() % 4); k; --k) { L l; for(int n=3+int(g() % 6); n; --n) l.push_back({g.in(0,G)*K,g.in(0,G)*K}); S.push_back(l); } } break;
        case 13: MODE = "origins, tree"; TREE = true; M = 0; OP = int(g() % 5); for(int k=1+int(g() % 4); k; --k) S.push_back(star(g,3 + int(g() % 9),500,400000,g.in(-200000,200000),g.in(-200000,200000))); break;
        case 12: MODE = "origins of offset points"; S = {star(g,4 + int(g() % 6),3000,9000,0,0),star(g,3 + int(g() % 6),3000,9000,4000,1000)}; OP = int(g() % 4); if(g() % 2) M = -M; CLOSED = g() % 4 != 0; break;
        }
        // the first point repeated at the end, points repeated in place
        if(mode < 10 && CLOSED) for(auto &l : S) { if(l.size() > 2 && g() % 3 == 0) l.push_back(l[0]); if(g() % 4 == 0) for(int k=1+int(g() % 2); k; --k) { auto j = g() % l.size(); L d(l.begin(),l.begin()+long(j)+1); d.insert(d.end(),l.begin()+long(j),l.end()); l = d; } }
        if(mode > 10) ok = i % 2 ? origins<int,unsigned>(g) : origins<std::int64_t,std::size_t>(g);
        else ok = i % 4 == 3 ? region<std::int64_t>(int(g() % 3),g) : region<int>(int(g() % 3),g);
    }
    std::printf("STAT %ld %ld\n",evals,nontriv);
    return ok ? 0 : 1;
}
