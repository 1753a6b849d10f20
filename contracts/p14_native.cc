// P14, bounded: simple hash table.
#include "pir/hashing/simple_hash_table.cc"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
VP_HARNESS(histories) {
  auto fns = AnyFns(1, 4);
  std::vector<HashFunction> fs(fns.begin(), fns.end());
  int buckets = 1 + (int)vp::draw_below(10);
  absl::optional<int> maxb;
  if (vp::draw64() & 1) maxb = 1 + (int)vp::draw_below(4);
  vp::note("buckets, max", std::to_string(buckets) + " " + (maxb ? std::to_string(*maxb) : "unlimited"));
  auto t = SimpleHashTable::Create(std::move(fs), buckets, maxb);
  vp::check(t.ok(), "valid parameters are accepted");
  auto& T = **t;
  std::vector<std::vector<std::string>> want(buckets);
  vp::check(T.GetTable() == want, "a new table has the requested buckets and is empty");
  int n = (int)vp::draw_below(12);
  for (int q = 0; q < n; ++q) {
    std::string s = AnyStr(3, true);
    vp::note("insert", s);
    auto next = want;
    for (auto& f : fns) next[f(s, buckets)].push_back(s);
    bool fits = true;
    for (auto& b : next) fits = fits && (!maxb || (int)b.size() <= *maxb || b.size() == want[&b - &next[0]].size());
    absl::Status st = T.Insert(s);
    vp::check(st.ok() == fits, "an insertion succeeds exactly when no bucket would exceed its limit");
    if (st.ok()) want = next;
    else vp::check(st.code() == absl::StatusCode::kInternal, "a full bucket is INTERNAL");
    vp::check(T.GetTable() == want, "an insertion appends once per hash function, a failed one changes nothing");
  }
}
VP_HARNESS(construction) {
  auto fns = AnyFns(0, 3);
  std::vector<HashFunction> fs(fns.begin(), fns.end());
  int buckets = (int)vp::draw_below(5) - 2;
  absl::optional<int> maxb;
  if (vp::draw64() & 1) maxb = (int)vp::draw_below(5) - 2;
  bool rest = buckets > 0 && (!maxb || *maxb > 0);
  auto t = SimpleHashTable::Create(std::move(fs), buckets, maxb);
  vp::check(t.ok() == (rest && fns.size() > 0), "construction parameters are accepted exactly when valid");
  if (!t.ok()) vp::check(t.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT");
  HashFamily fam = [](absl::string_view s) { return HashFunction(Fn{(uint64_t)s.size() + (uint64_t)s[0], 0}); };
  int k = (int)vp::draw_below(6) - 1;
  auto u = SimpleHashTable::Create(std::move(fam), buckets, k, maxb);
  vp::check(u.ok() == (rest && k >= 1), "construction from a family accepts the same parameters");
  if (u.ok()) vp::check((int)(*u)->GetHashFunctions().size() == k, "a family gives the requested number of functions");
}
