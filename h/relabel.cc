// C10, C12: histories in which arrays also get other shapes on the memory they have (set_shape, move_reinterpret_shape),
// mixed with all the other ways to change an array. Explored to a depth, beside a model of the memory each array can reach.
#include "ref.h"
#include "world.h"
#include <map>
using namespace ref;
constexpr bool P_VALUES = PROP == 10, P_ALLOC = PROP == 12;

enum what { SET_SHAPE, REINTERPRET, COPY_ASSIGN, MOVE_ASSIGN, COPY_NEW, MOVE_NEW, MOVE_NEW_ALLOC, SWAP, RESHAPE, ASSIGN, CLEAR, PAINT };
struct op { what k; int s, t; int sh; long off; };

template <size_t R> std::vector<rshape> shapes_();
template <> std::vector<rshape> shapes_<1>() { return {{{0, 6, 1}}, {{1, 2, 1}}, {{0, 3, -1}}, {{2, 2, 3}}, {{0, 0, 1}}}; }
template <> std::vector<rshape> shapes_<2>() { return {{{0, 2, 1}, {0, 3, 2}}, {{1, 3, 2}, {0, 2, -1}}, {{0, 1, 1}, {1, 2, 1}}, {{0, 2, 1}, {0, 0, 2}}, {{0, 2, 1}, {0, 2, 4}}}; }

template <size_t R, int Flags> struct world_ {
  using S = nda::shape_of_rank<R>;
  using Al = world::alloc<int, Flags>;
  using arr = nda::array<int, S, Al>;
  static constexpr bool CCA = (Flags & world::CCA) != 0, CMA = (Flags & world::CMA) != 0, CS = (Flags & world::CS) != 0;
  struct slot { rshape sh; std::map<long, int> mem; bool loose = false; };
  alignas(arr) unsigned char raw[2][sizeof(arr)];
  slot m[2];
  arr& at(int s) { return *(arr*)raw[s]; }
  const std::vector<rshape>& shapes() { static const auto v = shapes_<R>(); return v; }
  static std::map<long, int> constant(const rshape& sh, int v) { std::map<long, int> r; each(sh, [&](const idx& i) { r[offset(sh, i)] = v; }); return r; }
  static std::map<long, int> reachable(const slot& x) { std::map<long, int> r; each(x.sh, [&](const idx& i) { auto f = x.mem.find(offset(x.sh, i)); if (f != x.mem.end()) r.insert(*f); }); return r; }
  void set(int s, const slot& v) { m[s].sh = v.sh; m[s].mem = reachable(v); m[s].loose = false; }

  std::vector<op> enabled() {
    std::vector<op> r;
    for (int s = 0; s < 2; s++) {
      int t = 1 - s;
      for (int u = 0; u < 2; u++) {
        if (m[u].loose) continue;
        for (int k = 0; k < (int)shapes().size(); k++) {
          const rshape& n = shapes()[k];
          std::vector<long> offs;
          if (empty(n)) offs = {0};
          else if (!empty(m[u].sh)) { span f = flat_span(n), h = flat_span(m[u].sh); for (long o = h.lo - f.lo; f.hi + o <= h.hi; o++) offs.push_back(o); }
          if (offs.size() > 3) offs = {offs[0], offs[1], offs.back()};
          for (long o : offs) {
            if (u == s) r.push_back({SET_SHAPE, s, u, k, o});
            if (CMA || at(u).get_allocator() == Al()) r.push_back({REINTERPRET, s, u, k, o});
          }
        }
      }
      if (!m[t].loose) for (what k : {COPY_ASSIGN, MOVE_ASSIGN, COPY_NEW, MOVE_NEW, MOVE_NEW_ALLOC}) r.push_back({k, s, t, 0, 0});
      if (!m[t].loose && !m[s].loose && s == 0 && (CS || at(0).get_allocator() == at(1).get_allocator())) r.push_back({SWAP, s, t, 0, 0});
      for (int k = 0; k < (int)shapes().size(); k++) { if (!m[s].loose) r.push_back({RESHAPE, s, s, k, 0}); r.push_back({ASSIGN, s, s, k, 0}); }
      r.push_back({CLEAR, s, s, 0, 0});
      if (!m[s].loose) r.push_back({PAINT, s, s, 0, 0});
    }
    return r;
  }
  void step(const op& o) {
    S sh = to_shape<S>(shapes()[o.sh]); const rshape& rs = shapes()[o.sh];
    long al = world::heap().allocs;
    auto handed_over = [&](const char* n) { if (P_ALLOC && world::heap().allocs != al) mc::fail("%s allocates", n); };
    int ids = at(o.s).get_allocator().id, idt = at(o.t).get_allocator().id, id = ids;
    switch (o.k) {
      case SET_SHAPE: {
        at(o.s).set_shape(sh, (index_t)o.off); handed_over("set_shape");
        slot n; n.sh = rs; for (auto& x : m[o.t].mem) n.mem[x.first - o.off] = x.second;
        if (!empty(rs)) { span f = flat_span(rs); for (auto i = n.mem.begin(); i != n.mem.end();) if (i->first < f.lo || i->first > f.hi) i = n.mem.erase(i); else ++i; }
        m[o.s] = n; break;
      }
      case REINTERPRET: {
        at(o.s) = nda::move_reinterpret_shape(std::move(at(o.t)), sh, (index_t)o.off);
        if (CMA || ids == idt) handed_over("move_reinterpret_shape and move");
        slot n; n.sh = rs; for (auto& x : m[o.t].mem) n.mem[x.first - o.off] = x.second;
        bool whole = CMA || ids == idt;
        if (o.s != o.t) m[o.t].loose = true;
        if (whole) { m[o.s] = n; if (!empty(rs)) { span f = flat_span(rs); auto& q = m[o.s].mem; for (auto i = q.begin(); i != q.end();) if (i->first < f.lo || i->first > f.hi) i = q.erase(i); else ++i; } }
        else set(o.s, n);
        id = CMA ? idt : ids; break;
      }
      case COPY_ASSIGN: at(o.s) = at(o.t); set(o.s, m[o.t]); id = CCA ? idt : ids; break;
      case MOVE_ASSIGN: {
        at(o.s) = std::move(at(o.t)); bool whole = CMA || ids == idt; if (whole) handed_over("move assignment");
        if (whole) { m[o.s] = m[o.t]; } else set(o.s, m[o.t]);
        m[o.t].loose = true; id = CMA ? idt : ids; break;
      }
      case COPY_NEW: at(o.s).~arr(); new (raw[o.s]) arr(at(o.t)); set(o.s, m[o.t]); id = (Flags & world::SOCCC_FRESH) ? world::FRESH_ID : idt; break;
      case MOVE_NEW: {
        at(o.s).~arr(); new (raw[o.s]) arr(std::move(at(o.t))); bool whole = CMA || idt == 0; if (whole) handed_over("move construction");
        if (whole) m[o.s] = m[o.t]; else set(o.s, m[o.t]);
        m[o.t].loose = true; id = CMA ? idt : 0; break;
      }
      case MOVE_NEW_ALLOC: {
        Al a(ids); at(o.s).~arr(); new (raw[o.s]) arr(std::move(at(o.t)), a); bool whole = ids == idt; if (whole) handed_over("move construction");
        if (whole) m[o.s] = m[o.t]; else set(o.s, m[o.t]);
        m[o.t].loose = true; break;
      }
      case SWAP: {
        at(o.s).swap(at(o.t)); if (CS) handed_over("swap");
        std::swap(m[o.s], m[o.t]);
        if (!CS) { slot a = m[0], b = m[1]; set(0, a); set(1, b); }
        id = CS ? idt : ids; break;
      }
      case RESHAPE: {
        at(o.s).reshape(sh);
        if (!(m[o.s].sh == rs)) { slot n; n.sh = rs; each(rs, [&](const idx& i) { int v = 0; bool known = true; if (contains(m[o.s].sh, i)) { auto f = m[o.s].mem.find(offset(m[o.s].sh, i)); known = f != m[o.s].mem.end(); if (known) v = f->second; } if (known) n.mem[offset(rs, i)] = v; }); m[o.s] = n; }
        break;
      }
      case ASSIGN: at(o.s).assign(sh, 5); m[o.s] = slot(); m[o.s].sh = rs; m[o.s].mem = constant(rs, 5); break;
      case CLEAR: at(o.s).clear(); m[o.s] = slot(); m[o.s].sh = from_shape(S()); m[o.s].mem = constant(m[o.s].sh, 0); break;
      case PAINT: { int n = 100; each(m[o.s].sh, [&](const idx& i) { at(o.s)[to_tuple<R>(i)] = n; m[o.s].mem[offset(m[o.s].sh, i)] = n; n++; }); break; }
    }
    if (P_ALLOC && at(o.s).get_allocator().id != id) mc::fail("the allocator is %d, expected %d", at(o.s).get_allocator().id, id);
    for (int s = 0; s < 2; s++) {
      if (m[s].loose) continue;
      rshape g = from_shape(at(s).shape());
      if (P_VALUES) MC_CHECK(g == m[s].sh || (empty(g) && empty(m[s].sh)), "the shape of array %d is %s, expected %s", s, ref::str(g).c_str(), ref::str(m[s].sh).c_str());
      if (!(g == m[s].sh)) continue;
      each(m[s].sh, [&](const idx& i) {
        int& e = at(s)[to_tuple<R>(i)];
        if (P_ALLOC && !world::block_of(&e)) mc::fail("element %s of array %d is not in a block", ref::str(i).c_str(), s);
        auto f = m[s].mem.find(offset(m[s].sh, i));
        if (f == m[s].mem.end()) { if (world::block_of(&e)) m[s].mem[offset(m[s].sh, i)] = e; }  // a gap before: any value, but it stays
        else if (P_VALUES && e != f->second) mc::fail("element %s of array %d is %d, expected %d", ref::str(i).c_str(), s, e, f->second);
      });
    }
    world::check_reds();
  }
  static const char* name_of(what k) { static const char* n[] = {"set_shape", "move_reinterpret_shape", "copy assign", "move assign", "copy construct", "move construct", "move construct with allocator", "swap", "reshape", "assign", "clear", "paint"}; return n[k]; }
  void run(ctx& c) {
    int depth = mc::thorough() ? 4 : 3;
    int start = c.choose((Flags & world::STATELESS) ? 2 : 4);
    world::reset(); world::on() = P_ALLOC ? world::ALLOC : 0;
    for (int s = 0; s < 2; s++) {
      const rshape& r = shapes()[s == 0 ? 0 : (start & 1) ? 1 : 0];
      new (raw[s]) arr(to_shape<S>(r), Al((start & 2) ? (R == 1 ? s : 1 + s) : 0));
      m[s].sh = r; int n = 10 + 20 * s; each(r, [&](const idx& i) { at(s)[to_tuple<R>(i)] = n; m[s].mem[offset(r, i)] = n; n++; });
    }
    std::string h = "start " + std::to_string(start);
    for (int k = 0; k < depth; k++) {
      auto ops = enabled();
      const op o = ops[c.choose((int)ops.size())];
      if (k == 0 && !c.mine()) { at(0).~arr(); at(1).~arr(); return; }
      h += std::string("; ") + name_of(o.k) + " " + std::to_string(o.s) + (o.t != o.s ? " from " + std::to_string(o.t) : "") +
           (o.k == SET_SHAPE || o.k == REINTERPRET || o.k == RESHAPE || o.k == ASSIGN ? " " + ref::str(shapes()[o.sh]) + " offset " + std::to_string(o.off) : "");
      c.note("%s", h.c_str());
      step(o); c.check_soft();
      c.obs(o.k); c.obs(o.s); c.obs(o.t); c.obs(o.sh); c.obs(o.off);
    }
    at(0).~arr(); at(1).~arr();
    if (P_ALLOC) world::all_gone();
    c.check_soft(); c.nontrivial();
  }
};
template <size_t R, int Flags> struct cfg { };
template <class C> struct relabel;
template <size_t R, int Flags> struct relabel<cfg<R, Flags>> {
  static std::string name() { return "rank " + std::to_string(R) + ", allocator traits " + std::to_string(Flags); }
  static void run(ctx& c) { world_<R, Flags> w; w.run(c); }
};
static register_all<relabel> reg("histories with set_shape and move_reinterpret_shape",
  types<cfg<1, 0>, cfg<2, 0>, cfg<1, world::CMA>, cfg<2, world::CMA>, cfg<1, world::CCA | world::CS>, cfg<2, world::CCA | world::CMA | world::CS>, cfg<1, world::STATELESS | world::CMA>, cfg<1, world::SOCCC_FRESH | world::CMA>>());
