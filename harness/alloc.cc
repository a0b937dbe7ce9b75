// alloc.cc: histories of reserve / commit / decommit generations on scratch
// allocators against a model of the live blocks (C11).
#include <map>

#include "gemm_common.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

struct Blk {
  int type;
  size_t n, bytes;
  Allocator::Handle h;
  uint8_t* p;
};

template <typename T>
void reserve(Allocator* a, Blk* b) {
  b->h = a->Reserve<T>(b->n);
  b->bytes = b->n * sizeof(T);
}
template <typename T>
uint8_t* get(Allocator* a, const Blk& b) {
  return reinterpret_cast<uint8_t*>(a->GetPointer<T>(b.h));
}
uint8_t* getp(Allocator* a, const Blk& b) {
  switch (b.type) {
    case 0: return get<std::uint8_t>(a, b);
    case 1: return get<std::int8_t>(a, b);
    case 2: return get<std::uint16_t>(a, b);
    case 3: return get<std::int16_t>(a, b);
    case 4: return get<std::uint32_t>(a, b);
    default: return get<std::int32_t>(a, b);
  }
}
void do_reserve(Allocator* a, Blk* b) {
  switch (b->type) {
    case 0: reserve<std::uint8_t>(a, b); break;
    case 1: reserve<std::int8_t>(a, b); break;
    case 2: reserve<std::uint16_t>(a, b); break;
    case 3: reserve<std::int16_t>(a, b); break;
    case 4: reserve<std::uint32_t>(a, b); break;
    default: reserve<std::int32_t>(a, b); break;
  }
}

size_t gen_n(G& g) {
  switch (g.weighted({2, 6, 4, 4, 1})) {
    case 0: return 0;
    case 1: return g.range(1, 200);
    case 2: return (size_t(1) << g.range(0, 16)) + g.signed_range(-1, 1);
    case 3: return g.range(1, 20000);
    default: return g.range(1, 1 << 20);
  }
}

const int kBlocks = 5;  // the allocator serves this many blocks per generation

void stamp(const Blk& b, uint64_t salt) {
  Rng r(salt);
  for (size_t i = 0; i < b.bytes; i++) b.p[i] = static_cast<uint8_t>(r.next() >> 5);
}
bool stamped(const Blk& b, uint64_t salt) {
  Rng r(salt);
  for (size_t i = 0; i < b.bytes; i++)
    if (b.p[i] != static_cast<uint8_t>(r.next() >> 5)) return false;
  return true;
}

void prop_alloc(G& g) {
  int na = g.weighted({3, 1}) + 1;
  std::vector<std::unique_ptr<Allocator>> as(na);
  for (auto& a : as) a.reset(new Allocator);
  int gens = g.range(1, 12);
  std::string d;
  size_t sizes_seen = 0;
  uint64_t evals = 0;
  for (int t = 0; t < gens; t++) {
    // One generation on every allocator at the same time, so that blocks of
    // different allocators are live together.
    std::vector<std::vector<Blk>> blocks(na);
    std::vector<int> order;
    for (int k = 0; k < na; k++) {
      int nb = g.range(0, kBlocks);
      bool tiny = g.chance(1, 6);
      for (int i = 0; i < nb; i++) {
        Blk b;
        b.type = g.draw(6);
        b.n = tiny ? g.range(0, 70) : gen_n(g);
        do_reserve(as[k].get(), &b);
        blocks[k].push_back(b);
        d += strf(" a%d:%d[%zu]", k, b.type, b.n);
        sizes_seen += b.n > 0;
      }
      as[k]->Commit();
      d += " commit";
      for (auto& b : blocks[k]) b.p = getp(as[k].get(), b);
    }
    g.describe(d);
    // alignment, disjointness
    std::vector<Blk*> live;
    for (auto& v : blocks)
      for (auto& b : v) live.push_back(&b);
    for (Blk* b : live) {
      evals++;
      if (b->bytes && !b->p) g.fail("null block of %zu bytes", b->bytes);
      if (reinterpret_cast<uintptr_t>(b->p) % Allocator::kAlignment) g.fail("block %p not aligned to %zu", b->p, (size_t)Allocator::kAlignment);
      for (Blk* c : live)
        if (b != c && b->bytes && c->bytes && b->p < c->p + c->bytes && c->p < b->p + b->bytes) g.fail("blocks overlap");
    }
    uint64_t salt = g.seed64();
    for (size_t i = 0; i < live.size(); i++) stamp(*live[i], salt + i);
    for (int k = 0; k < na; k++)
      for (auto& b : blocks[k])
        if (getp(as[k].get(), b) != b.p) g.fail("a block moved while committed");
    for (size_t i = 0; i < live.size(); i++)
      if (!stamped(*live[i], salt + i)) g.fail("contents of block %d changed", (int)i);
    for (int k = na - 1; k >= 0; k--) {
      as[k]->Decommit();
      // blocks of the other allocators are unaffected
      size_t i = 0;
      for (int q = 0; q < na; q++)
        for (auto& b : blocks[q]) {
          if (q < k && !stamped(b, salt + i)) g.fail("decommit of one allocator damaged another's block");
          i++;
        }
    }
    d += " decommit;";
    if (g.chance(1, 10)) {
      int k = g.draw(na);
      as[k].reset(new Allocator);
      d += strf(" new a%d;", k);
    }
  }
  g.describe(d);
  g.label(strf("allocators:%d", na));
  g.label(gens > 1 ? "generations:many" : "generations:one");
  g.add_evals(evals + 1);
  g.nontrivial(gens >= 2 && sizes_seen >= 2);
}

// Hundreds of generations on one allocator: what a context that serves many
// calls does.  Sizes repeat, grow, shrink and spike.
void prop_long(G& g) {
  Allocator a;
  int gens = g.range(20, 1500), step = g.range(0, 40), spike = g.range(2, 400);
  Rng r(g.seed64());
  g.describe(strf("%d generations, step %d, spike every %d", gens, step, spike));
  size_t base = r.below(3000);
  for (int t = 0; t < gens; t++) {
    Blk blk[kBlocks];
    int nb = r.below(kBlocks + 1);
    if (r.below(20) == 0) base = r.below(3000);
    base += step;
    for (int i = 0; i < nb; i++) {
      blk[i].type = r.below(6);
      blk[i].n = t % spike == spike - 1 && r.below(2) ? r.below(100000) : r.below(8) == 0 ? r.below(3) : r.below(base + 1);
      do_reserve(&a, &blk[i]);
    }
    a.Commit();
    for (int i = 0; i < nb; i++) {
      blk[i].p = getp(&a, blk[i]);
      if (blk[i].bytes && !blk[i].p) g.fail("generation %d: null block of %zu bytes", t, blk[i].bytes);
      if (reinterpret_cast<uintptr_t>(blk[i].p) % Allocator::kAlignment) g.fail("generation %d: block %p not aligned", t, blk[i].p);
      for (int j = 0; j < i; j++)
        if (blk[i].bytes && blk[j].bytes && blk[i].p < blk[j].p + blk[j].bytes && blk[j].p < blk[i].p + blk[i].bytes)
          g.fail("generation %d: blocks overlap", t);
    }
    for (int i = 0; i < nb; i++) stamp(blk[i], t * 8 + i);
    for (int i = 0; i < nb; i++)
      if (!stamped(blk[i], t * 8 + i)) g.fail("generation %d: contents of block %d changed", t, i);
    a.Decommit();
  }
  g.label("generations:hundreds");
  g.add_evals(gens);
  g.nontrivial(gens >= 2);
}

// Blocks of several GiB (only their ends and a few pages are touched).
void giant_stamp(const Blk& b, uint64_t salt, bool write, G& g) {
  Rng where(salt * 31 + 7), what(salt);
  size_t spans[6];
  const size_t len = std::min<size_t>(b.bytes, 256);
  for (int i = 0; i < 6; i++) spans[i] = i == 0 ? 0 : i == 1 ? b.bytes - len : b.bytes > len ? where.below(b.bytes - len) : 0;
  std::sort(spans, spans + 6);
  size_t done = 0;
  for (int i = 0; i < 6; i++)
    for (size_t k = std::max(done, spans[i]); k < spans[i] + len; k++) {
      uint8_t v = static_cast<uint8_t>(what.next() >> 5);
      if (write) b.p[k] = v;
      else if (b.p[k] != v) g.fail("contents of a block of %zu bytes changed at %zu", b.bytes, k);
      done = k + 1;
    }
}
void prop_giant(G& g) {
  if (sizeof(size_t) < 8) return;
  pbt::heap_junk(0);  // would touch every page
  Allocator a;
  int gens = g.range(1, 3);
  std::string d;
  for (int t = 0; t < gens; t++) {
    int nb = g.range(1, kBlocks);
    std::vector<Blk> blk(nb);
    const size_t kElem[6] = {1, 1, 2, 2, 4, 4};
    size_t total = 0;
    int big = g.draw(nb);
    for (int i = 0; i < nb; i++) {
      blk[i].type = g.draw(6);
      size_t bytes = i == big ? (size_t(1) << g.range(30, 33)) + g.signed_range(-300, 70000)
                              : g.chance(1, 4) ? (size_t(1) << g.range(24, 32)) + g.signed_range(-300, 300) : g.range(0, 100000);
      blk[i].n = bytes / kElem[blk[i].type];
      total += bytes + 64;
      d += strf(" %d[%zu]", blk[i].type, blk[i].n);
    }
    d += ";";
    g.describe(d);
    // Only where this much address space can be had.
    void* probe = total > (size_t(12) << 30) ? nullptr : std::malloc(2 * total);
    if (!probe) {
      g.label("giant:not-available");
      return;
    }
    std::free(probe);
    for (auto& b : blk) do_reserve(&a, &b);
    a.Commit();
    for (auto& b : blk) b.p = getp(&a, b);
    for (int i = 0; i < nb; i++) {
      if (blk[i].bytes && !blk[i].p) g.fail("null block of %zu bytes", blk[i].bytes);
      if (reinterpret_cast<uintptr_t>(blk[i].p) % Allocator::kAlignment) g.fail("block %p not aligned", blk[i].p);
      for (int j = 0; j < i; j++)
        if (blk[i].bytes && blk[j].bytes && blk[i].p < blk[j].p + blk[j].bytes && blk[j].p < blk[i].p + blk[i].bytes)
          g.fail("blocks of %zu and %zu bytes overlap", blk[i].bytes, blk[j].bytes);
    }
    uint64_t salt = g.seed64();
    for (int i = 0; i < nb; i++) giant_stamp(blk[i], salt + i, true, g);
    for (int i = 0; i < nb; i++) giant_stamp(blk[i], salt + i, false, g);
    a.Decommit();
  }
  g.label("giant");
  g.add_evals(gens);
  g.nontrivial(true);
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"alloc", prop_alloc}, {"long", prop_long}, {"giant", prop_giant}}); }
