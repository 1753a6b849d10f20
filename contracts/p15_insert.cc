// P15: one insertion into a multiple-choice table, for any table, any number of
// hash functions and any element.  A hash function stands under its contract:
// some value in [0, bound) that depends on the function, input and bound only.
// (Real hash functions are type-erased, so p15_native.cc runs the real thing.)
#include "vp.h"
#include "pir/hashing/multiple_choice_hash_table.cc"
namespace {
using namespace distributed_point_functions;
const char* g_in;
size_t g_len, g_pos;  // g_pos: an arbitrary position in the element
int g_buckets;
const HashFunction* g_fns;
// the bucket assigned by function number i
int H(uint64_t i) {
  uint64_t a[1] = {i}, r[1];
  vp::uf("hash", 1, a, 1, r);
  return (int)(uint32_t)r[0];
}
// ghost: the size of bucket b before the insertion
uint64_t Old(uint64_t b) {
  uint64_t a[1] = {b}, r[1];
  vp::uf("old size", 1, a, 1, r);
  return r[0];
}
}  // namespace
//@stub ^.*AnyInvocable<int \(.*string_view, int\) const>::operator\(\)\(|^.*internal_any_invocable::Impl<int \(.*string_view, int\) const>::operator\(\)\( => vp_hash
extern "C" int vp_hash(const HashFunction* f, absl::string_view x, int bound) {
  vp::check(x.size() == g_len && bound == g_buckets && (g_pos >= g_len || x[g_pos] == g_in[g_pos]), "the element is hashed to a bucket of the table");
  return H((uint64_t)(f - g_fns));
}
VP_HARNESS(insert) {
  int n = vp::any<int>("buckets"), limit = vp::any<int>("limit");
  bool limited = vp::any<bool>("limited");
  vp::assume(n > 0 && limit > 0);
  std::string x;
  vp::havoc(x, "element");
  MultipleChoiceHashTable t({}, n, limited ? absl::optional<int>(limit) : absl::nullopt);
  vp::havoc(const_cast<std::vector<HashFunction>&>(t.hash_functions_), "functions");
  vp::havoc(t.table_, "table");
  size_t k = t.hash_functions_.size();
  vp::assume(k >= 2 && k <= 1u << 30 && t.table_.size() == (size_t)n);
  vp::assume_forall(0, k, [&](size_t i) { return H(i) >= 0 && H(i) < n; });
  vp::assume_forall(0, n, [&](size_t b) { return t.table_[b].size() <= 1u << 30; });
  g_in = x.data(); g_pos = vp::any<size_t>("position"); g_len = x.size(); g_buckets = n; g_fns = t.hash_functions_.data();
  size_t b = vp::any<size_t>("bucket"), i = vp::any<size_t>("function"), e = vp::any<size_t>("entry"), q = vp::any<size_t>("byte");
  vp::assume(b < (size_t)n);
  vp::assume(i < k);
  size_t before = t.table_[b].size(), cand = t.table_[H(i)].size();
  size_t least = ~(size_t)0;
  bool passed = false;
  for (size_t j = 0; j < k; ++j) {
    size_t c = t.table_[H(j)].size();
    least = c < least ? c : least;
    passed |= j == i;
  }
  vp::check(passed, "every candidate is looked at");
  vp::check(!passed | (least <= cand), "the minimum is below every candidate");
  const size_t len = e < before ? t.table_[b][e].size() : 0;
  const char byte = q < len ? t.table_[b][e][q] : 0;
  vp::assume_forall(0, n, [&](size_t j) { return Old(j) == t.table_[j].size(); });
  absl::Status s = t.Insert(x);
  vp::cover("inserted or refused");
  vp::check(s.ok() == (!limited || least < (size_t)limit), "an insertion fails exactly when the least full candidate is at the limit");
  vp::check(s.ok() || s.code() == absl::StatusCode::kInternal, "with the documented error");
  size_t after = t.table_[b].size();
  vp::check(after == before || (s.ok() && after == before + 1), "a bucket changes only by gaining one entry, in a successful insertion");
  vp::check(after == before || before == least, "the bucket chosen is one of the least full candidates");
  vp::check(e >= before || (t.table_[b][e].size() == len && (q >= len || t.table_[b][e][q] == byte)), "old entries stay");
  if (after != before) {
    vp::check(after <= (size_t)limit || !limited, "no bucket exceeds the limit");
    vp::check(t.table_[b][before].size() == x.size(), "the entry gained has the length of the element");
    vp::check(q >= x.size() || t.table_[b][before][q] == x[q], "and its bytes");
  }
  if (s.ok()) {
    vp::assume_forall(0, n, [&](size_t j) { return Old(j) == t.table_[j].size(); });
    vp::check(false, "a successful insertion adds the element to some bucket");
  }
}
VP_HARNESS(create) {
  int n = vp::any<int>("buckets"), limit = vp::any<int>("limit");
  bool limited = vp::any<bool>("limited");
  std::vector<HashFunction> f;
  vp::havoc(f, "functions");
  size_t k = f.size();
  auto t = MultipleChoiceHashTable::Create(std::move(f), n, limited ? absl::optional<int>(limit) : absl::nullopt);
  vp::check(t.ok() == (n > 0 && k >= 2 && (!limited || limit > 0)), "exactly the documented parameters are accepted");
  if (!t.ok()) {
    vp::check(t.status().code() == absl::StatusCode::kInvalidArgument, "others are invalid arguments");
    return;
  }
  vp::check((*t)->table_.size() == (size_t)n && (*t)->num_buckets_ == n && (*t)->hash_functions_.size() == k, "the table has the buckets and functions asked for");
  vp::check((*t)->max_bucket_size_.has_value() == limited && (!limited || *(*t)->max_bucket_size_ == limit), "and the limit");
  vp::forall(0, n, "all buckets start empty", [&](size_t b) { return (*t)->table_[b].empty(); });
}
