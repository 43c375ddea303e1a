// Bounded stand-in for the rasterizer as a whole: E03 <mode> <seed> <start> <count>
#include <poly_ops/polydraw.hpp>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <set>
#include <string>
typedef __int128 i128; typedef std::int64_t i64;
namespace pd = poly_ops::draw;
struct P { i64 x, y; bool operator==(const P&) const = default; }; typedef std::vector<P> L;
struct Rng { std::uint64_t s; std::uint32_t operator()() { s = s*6364136223846793005ULL + 1442695040888963407ULL; return std::uint32_t(s >> 33); } };
struct Span { i64 x1, x2, y, w; bool operator==(const Span&) const = default; };
static std::vector<L> S; static unsigned W, H; static const char *MODE = ""; static char CUR[1 << 16];
static std::string text() { std::string r = std::to_string(W) + "x" + std::to_string(H); for(auto &l : S) { r += " loop:"; for(P p : l) r += "{" + std::to_string(p.x) + "," + std::to_string(p.y) + "}"; } return r; }
static void die(int sig) { auto o = [](const char *s) { std::size_t n = 0; while(s[n]) ++n; if(write(1,s,n)) {} }; o(sig == SIGALRM ? "FAIL does not end: " : sig == SIGABRT ? "FAIL aborts: " : "FAIL crashes: "); o(MODE); o(" "); o(CUR); o("\n"); _exit(3); }
// x = num/den at height y of the line a-b, den > 0
struct X { i128 num, den; int w; i64 px; };
static std::vector<Span> expected() {
    std::vector<Span> r;
    for(i64 y=0; y<i64(H); ++y) {
        std::vector<X> xs;
        for(auto &l : S) { L m; for(P p : l) if(m.empty() || !(m.back() == p)) m.push_back(p); while(m.size() > 1 && m.back() == m[0]) m.pop_back();
            for(std::size_t i=0; i<m.size(); ++i) { P a = m[i], b = m[(i+1)%m.size()]; int w = 1; if(a.y > b.y) { std::swap(a,b); w = -1; } if(!(a.y <= y && y < b.y)) continue;
                i128 den = b.y-a.y, num = i128(a.x)*(b.y-y) + i128(b.x)*(y-a.y); i128 q = num/den; if(q < 0) q = 0; if(q > i64(W)-1) q = i64(W)-1; xs.push_back({num,den,w,i64(q)}); } }
        std::sort(xs.begin(),xs.end(),[](const X &a,const X &b) { return a.num*b.den > b.num*a.den; });
        long w = 0;
        for(std::size_t i=0; i<xs.size(); ++i) { if(i && w && xs[i].num*xs[i-1].den != xs[i-1].num*xs[i].den) r.push_back({xs[i].px,xs[i-1].px,y,w}); w += xs[i].w; }
    }
    return r;
}
static long evals, nontriv; static std::set<std::size_t> seen;
template<class Coord> bool run(pd::rasterizer<Coord> &ras,int form,pd::fill_rule_t rule) {
    std::string t = text(); std::size_t n = std::min(t.size(),sizeof(CUR)-1); std::copy(t.begin(),t.begin()+long(n),CUR); CUR[n] = 0; alarm(20);
    std::vector<std::vector<poly_ops::point_t<Coord>>> in; for(auto &l : S) { in.emplace_back(); for(P p : l) in.back().push_back({Coord(p.x),Coord(p.y)}); }
    if(form == 0) ras.add_loops(in); else if(form == 1) for(auto &l : in) ras.add_loops(l); else for(auto &l : in) { auto s = ras.add_loop(); for(auto &p : l) s(p); }
    std::vector<Span> out, fill;
    { auto st = ras.scan_lines(W,H); pd::scan_line sc; while(st(ras,sc)) out.push_back({sc.x1,sc.x2,sc.y,sc.winding}); }
    ras.draw(W,H,[&](unsigned a,unsigned b,unsigned y) { fill.push_back({a,b,y,0}); },rule);
    alarm(0); ++evals;
    auto e = expected(); const char *bad = nullptr;
    if(!e.empty() && e.size() != S.size() && seen.insert(std::hash<std::string>{}(t)).second) { ++nontriv; if(nontriv % 4000 == 7) std::printf("SAMPLE %s\n",t.substr(0,400).c_str()); }
    for(std::size_t i=0; i<out.size(); ++i) { auto &s = out[i]; if(s.x1 > s.x2 || s.x2 >= W || s.y >= H || s.w == 0) bad = "a span is outside of the raster or empty"; if(i && (s.y < out[i-1].y || (s.y == out[i-1].y && s.x2 > out[i-1].x1))) bad = "spans overlap or are out of order"; }
    auto strip = [](std::vector<Span> v) { std::erase_if(v,[](const Span &s) { return s.x1 == s.x2; }); std::vector<Span> r; for(auto &s : v) if(!r.empty() && r.back().y == s.y && r.back().w == s.w && r.back().x1 == s.x2) r.back().x1 = s.x1; else r.push_back(s); return r; };
    auto a = strip(out), b = strip(e); if(!bad && a != b) bad = "the spans differ from the exact windings";
    if(!bad) for(auto &s : e) if(s.x1 == s.x2) { bool f = false; for(auto &o : out) f = f || (o.y == s.y && o.w == s.w && o.x1 <= s.x1 && s.x1 <= o.x2); if(!f) bad = "a span narrower than a pixel is missing"; }
    std::vector<Span> f; for(auto &s : out) { bool k = rule == pd::fill_rule_t::non_zero ? s.w != 0 : rule == pd::fill_rule_t::even_odd ? s.w % 2 != 0 : rule == pd::fill_rule_t::positive ? s.w > 0 : s.w < 0; if(k) f.push_back({s.x1,s.x2,s.y,0}); }
    if(!bad && f != fill) bad = "draw does not apply the fill rule to the spans";
    if(bad) { std::printf("FAIL %s: %s: %s\n",MODE,bad,t.c_str()); std::string d = "  expected"; for(auto &s : b) d += " [" + std::to_string(s.x1) + "-" + std::to_string(s.x2) + " y" + std::to_string(s.y) + " w" + std::to_string(s.w) + "]"; d += "\n  reported"; for(auto &s : a) d += " [" + std::to_string(s.x1) + "-" + std::to_string(s.x2) + " y" + std::to_string(s.y) + " w" + std::to_string(s.w) + "]"; std::fprintf(stderr,"%s\n",d.substr(0,3000).c_str()); return false; }
    return true;
}
int main(int argc,char **argv) {
    for(int s : {SIGABRT,SIGSEGV,SIGFPE,SIGALRM,SIGBUS}) std::signal(s,die);
    int mode = std::atoi(argv[1]); std::uint64_t seed = std::strtoull(argv[2],0,10); long start = std::atol(argv[3]), count = std::atol(argv[4]); bool ok = true;
    if(mode == 0) {     // all closed polygons of n points on a 4 by 4 grid
        MODE = "polygons on a small grid"; int n = int(count); long stripes = std::atol(argv[5]), tot = 1; for(int i=0; i<n; ++i) tot *= 16; W = H = 5; pd::rasterizer<int> ras;
        for(long i=start; ok && i<tot; i += stripes) { L l; long v = i; for(int k=0; k<n; ++k) { l.push_back({v % 4,v/4 % 4}); v /= 16; } S = {l}; ok = run<int>(ras,0,pd::fill_rule_t(i/stripes % 4)); }
    } else {
        pd::rasterizer<int> r32; pd::rasterizer<short> r16; pd::rasterizer<i64> r64; 
        for(long i=start; ok && i<start+count; ++i) {
            Rng g{(seed*1000003 + std::uint64_t(i))*2654435761u}; g(); g(); S.clear(); int G = 10, maxp = 8, loops = 1 + int(g() % 3), off = 0; W = 12; H = 12;
            switch(mode) {
            case 1: MODE = "small polygons"; break;
            case 2: MODE = "partly outside"; G = 40; off = -15; W = 1 + g() % 20; H = 1 + g() % 20; break;
            case 3: MODE = "many points"; G = 60; maxp = 40; W = H = 64; break;
            case 4: MODE = "thin grid"; G = 4; maxp = 12; loops = 4; W = H = 6; break;
            case 5: MODE = "large coordinates"; G = 1000; off = -500; W = H = 16; break;
            }
            for(int j=0; j<loops; ++j) { L l; int m = 1 + int(g() % std::uint32_t(maxp)); if(g() % 8) m += 2; for(int t=0; t<m; ++t) { i64 x = i64(g() % std::uint32_t(G)) + off, y = i64(g() % std::uint32_t(G)) + off; if(mode == 5) { x = x*1000000 + i64(g() % 1000); y = i64(g() % 40) - 20; if(g() % 4 == 0) y *= 1000; } l.push_back({x,y}); } S.push_back(l); }
            int form = int(i % 3); auto rule = pd::fill_rule_t(g() % 4);
            bool fresh = g() % 4 == 0;
            if(fresh) { if(i % 2) { pd::rasterizer<int> r; ok = run(r,form,rule); } else { pd::rasterizer<i64> r; ok = run(r,form,rule); } }
            else if(mode < 5 && i % 3 == 0) ok = run(r16,form,rule); else if(i % 3 == 1) ok = run(r64,form,rule); else ok = run(r32,form,rule);
        }
    }
    std::printf("STAT %ld %ld\n",evals,nontriv);
    return ok ? 0 : 1;
}
