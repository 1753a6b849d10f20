// P15, bounded: multiple-choice hash table.
#include "pir/hashing/multiple_choice_hash_table.cc"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
VP_HARNESS(histories) {
  auto fns = AnyFns(2, 4);
  std::vector<HashFunction> fs(fns.begin(), fns.end());
  int buckets = 1 + (int)vp::draw_below(10);
  absl::optional<int> maxb;
  if (vp::draw64() & 1) maxb = 1 + (int)vp::draw_below(4);
  vp::note("buckets, max", std::to_string(buckets) + " " + (maxb ? std::to_string(*maxb) : "unlimited"));
  auto t = MultipleChoiceHashTable::Create(std::move(fs), buckets, maxb);
  vp::check(t.ok(), "valid parameters are accepted");
  auto& T = **t;
  std::vector<std::vector<std::string>> was(buckets);
  vp::check(T.GetTable() == was, "a new table has the requested buckets and is empty");
  int n = (int)vp::draw_below(20);
  for (int q = 0; q < n; ++q) {
    std::string s = AnyStr(3, true);
    vp::note("insert", s);
    size_t least = ~(size_t)0;
    for (auto& f : fns) least = std::min(least, was[f(s, buckets)].size());
    absl::Status st = T.Insert(s);
    vp::check(st.ok() == !(maxb && (int)least >= *maxb), "an insertion succeeds exactly when a candidate bucket has room");
    auto now = T.GetTable();
    vp::check((int)now.size() == buckets, "the number of buckets never changes");
    int changed = -1;
    for (int i = 0; i < buckets; ++i) if (now[i] != was[i]) { vp::check(changed < 0, "one bucket changes"); changed = i; }
    if (!st.ok()) { vp::check(changed < 0 && st.code() == absl::StatusCode::kInternal, "a failed insertion changes nothing"); continue; }
    vp::check(changed >= 0, "a successful insertion appends the element");
    bool cand = false;
    for (auto& f : fns) cand |= f(s, buckets) == changed;
    vp::check(cand && was[changed].size() == least, "the bucket is a candidate of minimal size");
    was[changed].push_back(s);
    vp::check(now == was, "the element is appended exactly once");
  }
}
VP_HARNESS(construction) {
  auto fns = AnyFns(0, 3);
  std::vector<HashFunction> fs(fns.begin(), fns.end());
  int buckets = (int)vp::draw_below(5) - 2;
  absl::optional<int> maxb;
  if (vp::draw64() & 1) maxb = (int)vp::draw_below(5) - 2;
  bool rest = buckets > 0 && (!maxb || *maxb > 0);
  auto t = MultipleChoiceHashTable::Create(std::move(fs), buckets, maxb);
  vp::check(t.ok() == (rest && fns.size() > 1), "construction parameters are accepted exactly when valid");
  if (!t.ok()) vp::check(t.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT");
  HashFamily fam = [](absl::string_view s) { return HashFunction(Fn{(uint64_t)s.size() + (uint64_t)s[0], 0}); };
  int k = (int)vp::draw_below(6) - 1;
  auto u = MultipleChoiceHashTable::Create(std::move(fam), buckets, k, maxb);
  vp::check(u.ok() == (rest && k >= 2), "construction from a family accepts the same parameters");
}
