// Oracle of the whole-operation checks: exact winding numbers of the input against the output of the real code.
#include <poly_ops/poly_ops.hpp>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <algorithm>
namespace oracle {
typedef __int128 i128; typedef std::int64_t i64;
struct P { i64 x, y; bool operator==(const P&) const = default; };
typedef std::vector<P> L;
// winding number of loop l around q (q given in the same scale; must not lie on the loop); sign as of triangle_winding/winding_dir
inline int wind(const L &l,P q) {
    int w = 0;
    for(std::size_t i=0; i<l.size(); ++i) {
        P a = l[i], b = l[i+1 == l.size() ? 0 : i+1];
        if((a.y <= q.y) == (b.y <= q.y)) continue;
        i128 c = i128(b.x-a.x)*(q.y-a.y) - i128(b.y-a.y)*(q.x-a.x);
        if(b.y > a.y) { if(c > 0) ++w; } else if(c < 0) --w;
    }
    return w;
}
inline int wind(const std::vector<L> &ls,P q) { int w = 0; for(auto &l : ls) w += wind(l,q); return w; }
inline bool on_seg(P a,P b,P q) {
    return i128(b.x-a.x)*(q.y-a.y) == i128(b.y-a.y)*(q.x-a.x) && std::min(a.x,b.x) <= q.x && q.x <= std::max(a.x,b.x) && std::min(a.y,b.y) <= q.y && q.y <= std::max(a.y,b.y);
}
inline bool on_loop(const L &l,P q) { for(std::size_t i=0; i<l.size(); ++i) if(on_seg(l[i],l[i+1 == l.size() ? 0 : i+1],q)) return true; return false; }
// is q within distance tol of the segment?
inline bool near(P a,P b,P q,i64 tol) {
    i128 dx = b.x-a.x, dy = b.y-a.y, px = q.x-a.x, py = q.y-a.y, d = dx*dx+dy*dy, t = px*dx+py*dy;
    if(t <= 0 || d == 0) return px*px+py*py <= i128(tol)*tol;
    if(t >= d) { px = q.x-b.x; py = q.y-b.y; return px*px+py*py <= i128(tol)*tol; }
    i128 c = dx*py-dy*px; return (long double)c*(long double)c <= (long double)tol*tol*(long double)d;
}
inline bool near(const std::vector<L> &ls,P q,i64 tol) { for(auto &l : ls) for(std::size_t i=0; i<l.size(); ++i) if(near(l[i],l[i+1 == l.size() ? 0 : i+1],q,tol)) return true; return false; }
inline i128 area2(const L &l) { i128 s = 0; for(std::size_t i=0; i<l.size(); ++i) { P a = l[i], b = l[i+1 == l.size() ? 0 : i+1]; s += i128(a.x)*b.y - i128(b.x)*a.y; } return s; }
inline int sgn(i128 x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
inline int ori(P a,P b,P c) { return sgn(i128(b.x-a.x)*(c.y-a.y) - i128(b.y-a.y)*(c.x-a.x)); }
inline bool cross(P a,P b,P c,P d) { return ori(a,b,c)*ori(a,b,d) < 0 && ori(c,d,a)*ori(c,d,b) < 0; }
inline bool inside(int op,int s,int c) {
    switch(op) { case 0: return s+c > 0; case 1: return s > 0 && c > 0; case 2: return (s > 0) != (c > 0); case 3: return s > 0 && c <= 0; default: return (s+c) % 2 != 0; }
}
struct Rng { std::uint64_t s; std::uint32_t operator()() { s = s*6364136223846793005ULL + 1442695040888963407ULL; return std::uint32_t(s >> 33); } i64 in(i64 lo,i64 hi) { return lo + i64(((std::uint64_t((*this)()) << 31) ^ (*this)()) % std::uint64_t(hi-lo+1)); } };
enum { OK, CROSSING=1, WINDING01, REGION, NESTING, ORIENTATION, SHORT, LOOPSET, ZEROLINE, REUSE, SIZE };
struct Bad { int code; P at; int a, b; };

// do two lines of the loops share more than a point?
inline bool overlaps(const std::vector<L> &out) {
    std::vector<std::pair<P,P>> e; for(auto &l : out) for(std::size_t i=0; i<l.size(); ++i) e.push_back({l[i],l[i+1 == l.size() ? 0 : i+1]});
    for(std::size_t i=0; i<e.size(); ++i) for(std::size_t j=0; j<i; ++j) {
        auto [a,b] = e[i]; auto [c,d] = e[j]; if(ori(a,b,c) || ori(a,b,d)) continue;
        if(on_seg(a,b,c) + on_seg(a,b,d) + on_seg(c,d,a) + on_seg(c,d,b) > 2) return true;
        if(on_seg(a,b,c) + on_seg(a,b,d) + on_seg(c,d,a) + on_seg(c,d,b) == 2 && !(a == c || a == d || b == c || b == d)) return true;
    }
    return false;
}
// hierarchy of the tree form
template<class R> int tree(R &&r,int depth,std::vector<L> &all,const L *parent,bool degen) {
    std::vector<L> mine;
    for(auto &&l : r) {
        L x; for(auto p : l) x.push_back({p[0],p[1]});
        if(x.size() != std::size_t(l.size())) return SIZE;
        i128 a = area2(x);
        if(!degen) if(depth % 2 ? a > 0 : a < 0) return ORIENTATION;
        if(parent && !degen) for(P p : x) if(!on_loop(*parent,p) && wind(*parent,p) == 0) return NESTING;
        if(int e = tree(l.inner_loops(),depth+1,all,&x,degen)) return e;
        mine.push_back(x);
    }
    // siblings are not inside each other
    if(!degen) for(auto &a : mine) for(auto &b : mine) if(&a != &b) for(P p : a) { if(on_loop(b,p)) continue; if(wind(b,p) != 0) return NESTING; break; }
    for(auto &l : mine) all.push_back(l);
    return OK;
}
inline L canon(L l) { std::size_t k = 0; for(std::size_t i=1; i<l.size(); ++i) { bool less = false; for(std::size_t j=0; j<l.size(); ++j) { P a = l[(i+j)%l.size()], b = l[(k+j)%l.size()]; if(a == b) continue; less = a.x != b.x ? a.x < b.x : a.y < b.y; break; } if(less) k = i; } std::rotate(l.begin(),l.begin()+std::ptrdiff_t(k),l.end()); return l; }
inline void canon(std::vector<L> &ls) { for(auto &l : ls) l = canon(l); std::sort(ls.begin(),ls.end(),[](const L &a,const L &b) { return std::lexicographical_compare(a.begin(),a.end(),b.begin(),b.end(),[](P p,P q) { return p.x != q.x ? p.x < q.x : p.y < q.y; }); }); }

inline int structure(const std::vector<L> &out,bool check01,Rng &g,Bad &bad) {
    std::vector<std::pair<P,P>> e; i64 lo = 0, hi = 1;
    for(auto &l : out) {
        
        for(std::size_t i=0; i<l.size(); ++i) { P a = l[i], b = l[i+1 == l.size() ? 0 : i+1]; if(a == b) { bad.at = a; return ZEROLINE; } e.push_back({a,b}); lo = std::min({lo,a.x,a.y}); hi = std::max({hi,a.x,a.y}); }
    }
    if(e.size() < 400) for(std::size_t i=0; i<e.size(); ++i) for(std::size_t j=0; j<i; ++j) if(cross(e[i].first,e[i].second,e[j].first,e[j].second)) { bad.at = e[i].first; return CROSSING; }
    if(check01 && lo > -(i64(1) << 46) && hi < (i64(1) << 46)) {
        // points just beside the middle of the lines, in a finer scale
        std::vector<L> f = out; const i64 K = 1 << 12; for(auto &l : f) for(auto &p : l) { p.x *= 2*K; p.y *= 2*K; }
        for(auto &s : e) { P m{(s.first.x+s.second.x)*K + i64(g()%7) - 3,(s.first.y+s.second.y)*K + i64(g()%7) - 3}; bool on = false; for(auto &l : f) on = on || on_loop(l,m); if(on) continue; int w = wind(f,m); if(w != 0 && w != 1) { bad.at = m; bad.a = w; return WINDING01; } }
    }
    return OK;
}
template<class Coord> std::vector<L> collect(auto &&r) { std::vector<L> out; for(auto &&l : r) { L x; for(auto p : l) x.push_back({i64(p[0]),i64(p[1])}); out.push_back(x); } return out; }

inline long last_points, last_new;  // points of the last output; those that are no input points
// subj, clip: input; tol < 0: no region comparison. reuse: a clipper used before, or null
template<class Coord,class Index=std::size_t> int check(const std::vector<L> &s,const std::vector<L> &c,int op,i64 tol,int samples,std::uint64_t seed,Bad &bad,poly_ops::clipper<Coord,Index> *reuse=nullptr) {
    using namespace poly_ops;
    Rng g{seed*7919 + 1}; int form = int(seed % 4);
    typedef std::vector<std::vector<point_t<Coord>>> VV; VV in[2];
    for(int k=0; k<2; ++k) for(auto &l : k ? c : s) { in[k].emplace_back(); for(P p : l) in[k].back().push_back({Coord(p.x),Coord(p.y)}); }
    auto add = [&](auto &n) {
        if(form == 1) { n.add_loops_clip(in[1]); n.add_loops_subject(in[0]); }
        else if(form == 2) { for(int k=0; k<2; ++k) for(auto &l : in[k]) { auto sink = n.add_loop(k ? bool_set::clip : bool_set::subject); for(auto &p : l) sink(p); } }
        else for(int k=0; k<2; ++k) for(auto &l : in[k]) n.add_loops(l,k ? bool_set::clip : bool_set::subject);
    };
    clipper<Coord,Index> own; clipper<Coord,Index> &n = reuse ? *reuse : own; std::vector<L> out, all;
    if(form == 3 && !reuse) out = collect<Coord>(boolean_op<false,Coord,Index>(in[0],in[1],bool_op(op)));
    else { add(n); out = collect<Coord>(n.template execute<false>(bool_op(op))); }
    last_points = last_new = 0; for(auto &l : out) for(P p : l) { ++last_points; bool f = false; for(auto *v : {&s,&c}) for(auto &x : *v) f = f || std::find(x.begin(),x.end(),p) != x.end(); last_new += !f; }
    if(int e = structure(out,true,g,bad)) return e;
    bool degen = reuse || overlaps(out);    // the tree of overlapping lines is a known finding; rounding differs from run to run of one clipper
    if(!degen) {
        clipper<Coord,Index> own2; clipper<Coord,Index> &n2 = reuse ? *reuse : own2; add(n2);
        int e; if(form == 3 && !reuse) e = tree(boolean_op<true,Coord,Index>(in[0],in[1],bool_op(op)),0,all,nullptr,false); else e = tree(n2.template execute<true>(bool_op(op)),0,all,nullptr,false);
        if(e) return e;
    }
    if(tol >= 0) {
        i64 lo = 0, hi = 0; for(auto *v : {&s,&c}) for(auto &l : *v) for(P p : l) { lo = std::min({lo,p.x,p.y}); hi = std::max({hi,p.x,p.y}); }
        for(int k=0; k<samples; ++k) {
            P q{g.in(lo-1,hi+1),g.in(lo-1,hi+1)};
            if(k & 1) {     // close to a line
                auto &v = (k & 2) && !c.empty() ? c : s; if(v.empty()) continue; auto &l = v[g() % v.size()]; if(l.size() < 2) continue; std::size_t i = g() % l.size(); P a = l[i], b = l[(i+1)%l.size()]; i64 t = g()%1024;
                q = {i64(a.x + i128(b.x-a.x)*t/1024) + g.in(-2*tol-2,2*tol+2),i64(a.y + i128(b.y-a.y)*t/1024) + g.in(-2*tol-2,2*tol+2)};
            }
            if(near(s,q,tol) || near(c,q,tol)) continue;
            int ws = wind(s,q), wc = wind(c,q); bool on = false; for(auto &l : out) on = on || on_loop(l,q); int w = wind(out,q);
            if(!degen && wind(all,q) != w) { bad.at = q; return LOOPSET; }
            if(on || (w != 0) != inside(op,ws,wc) || w < 0 || w > 1) { bad.at = q; bad.a = ws; bad.b = wc; return REGION; }
        }
    }
    return OK;
}
} // namespace oracle
