// P13, bounded: the cuckoo table keeps every inserted element reachable.
#include <set>
#include "pir/hashing/cuckoo_hash_table.cc"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
VP_HARNESS(histories) {
  auto fns = AnyFns(2, 4);
  std::vector<HashFunction> fs(fns.begin(), fns.end());
  int buckets = 1 + (int)vp::draw_below(12), reloc = (int)vp::draw_below(8);
  absl::optional<int> stash;
  if (vp::draw64() & 1) stash = (int)vp::draw_below(5);
  auto t = CuckooHashTable::Create(std::move(fs), buckets, reloc, stash);
  vp::check(t.ok(), "valid parameters are accepted");
  vp::note("buckets, relocations, stash", std::to_string(buckets) + " " + std::to_string(reloc) + " " + (stash ? std::to_string(*stash) : "unlimited"));
  std::multiset<std::string> want;
  auto& T = **t;
  vp::check((int)T.GetTable().size() == buckets && T.GetStash().empty(), "a new table has the requested buckets and is empty");
  for (auto& b : T.GetTable()) vp::check(!b.has_value(), "a new table has the requested buckets and is empty");
  int n = (int)vp::draw_below(25);
  for (int q = 0; q < n; ++q) {
    std::string s = AnyStr(3, true);
    vp::note("insert", s);
    absl::Status st = T.Insert(s);
    want.insert(s);
    std::multiset<std::string> have(T.GetStash().begin(), T.GetStash().end());
    size_t filled = 0;
    vp::check((int)T.GetTable().size() == buckets, "the number of buckets never changes");
    for (int i = 0; i < buckets; ++i) {
      auto& b = T.GetTable()[i];
      if (!b) continue;
      ++filled;
      have.insert(*b);
      bool mine = false;
      for (auto& f : fns) mine |= f(*b, buckets) == i;
      vp::check(mine, "every bucketed element sits in a bucket one of the hash functions assigns to it");
    }
    vp::check(!stash || (int)T.GetStash().size() <= *stash, "the stash never exceeds its limit");
    if (!st.ok()) { vp::check(stash && (int)T.GetStash().size() == *stash, "insertion fails only when the stash is full"); break; }
    vp::check(have == want, "buckets and stash hold exactly the inserted elements");
  }
}
VP_HARNESS(construction) {
  auto fns = AnyFns(0, 4);
  std::vector<HashFunction> fs(fns.begin(), fns.end());
  int buckets = (int)vp::draw_below(5) - 2, reloc = (int)vp::draw_below(5) - 2;
  absl::optional<int> stash;
  if (vp::draw64() & 1) stash = (int)vp::draw_below(5) - 2;
  bool good = fns.size() >= 2 && buckets > 0 && reloc >= 0 && (!stash || *stash >= 0);
  auto t = CuckooHashTable::Create(std::move(fs), buckets, reloc, stash);
  vp::check(t.ok() == good, "construction parameters are accepted exactly when valid");
  if (!good) vp::check(t.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT");
  HashFamily fam = [](absl::string_view s) { return HashFunction(Fn{(uint64_t)s.size() + (uint64_t)s[0], 0}); };
  int k = (int)vp::draw_below(6) - 1;
  auto u = CuckooHashTable::Create(std::move(fam), buckets, k, reloc, stash);
  vp::check(u.ok() == (k >= 2 && buckets > 0 && reloc >= 0 && (!stash || *stash >= 0)), "construction from a family accepts the same parameters");
  if (u.ok()) vp::check((int)(*u)->GetHashFunctions().size() == k, "a family gives the requested number of functions");
}
