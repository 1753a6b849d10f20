// P14: one insertion into a simple hash table, for any table, any number of
// hash functions and any element.  A hash function stands under its contract:
// some value in [0, bound) that depends on the function, input and bound only.
#include "vp.h"
#include <algorithm>
#include "pir/hashing/simple_hash_table.cc"
namespace {
using namespace distributed_point_functions;
const char* g_in;
size_t g_len, g_pos;  // g_pos: an arbitrary position in the element
int g_buckets;
const HashFunction* g_fns;
int H(uint64_t i) {
  uint64_t a[1] = {i}, r[1];
  vp::uf("hash", 1, a, 1, r);
  return (int)(uint32_t)r[0];
}
}  // namespace
//@stub ^.*AnyInvocable<int \(.*string_view, int\) const>::operator\(\)\(|^.*internal_any_invocable::Impl<int \(.*string_view, int\) const>::operator\(\)\( => vp_hash
extern "C" int vp_hash(const HashFunction* f, absl::string_view x, int bound) {
  vp::check(x.size() == g_len && bound == g_buckets && (g_pos >= g_len || x[g_pos] == g_in[g_pos]), "the element is hashed to a bucket of the table");
  return H((uint64_t)(f - g_fns));
}
VP_HARNESS(insert) {
  int n = vp::any<int>("buckets"), limit = vp::any<int>("limit");
  bool limited = vp::any<bool>("limited");
  vp::assume(n > 0 && limit > 0);
  std::string x;
  vp::havoc(x, "element");
  SimpleHashTable t({}, n, limited ? absl::optional<int>(limit) : absl::nullopt);
  vp::havoc(const_cast<std::vector<HashFunction>&>(t.hash_functions_), "functions");
  vp::havoc(t.table_, "table");
  size_t k = t.hash_functions_.size();
  vp::assume(k >= 1 && k <= 1u << 30 && t.table_.size() == (size_t)n);
  vp::assume_forall(0, k, [&](size_t i) { return H(i) >= 0 && H(i) < n; });
  vp::assume_forall(0, n, [&](size_t b) { return t.table_[b].size() <= 1u << 30; });
  g_in = x.data(); g_pos = vp::any<size_t>("position"); g_len = x.size(); g_buckets = n; g_fns = t.hash_functions_.data();
  size_t b = vp::any<size_t>("bucket"), e = vp::any<size_t>("entry"), q = vp::any<size_t>("byte");
  vp::assume(b < (size_t)n);
  size_t before = t.table_[b].size();
  size_t copies = 0;
  for (size_t j = 0; j < k; ++j) copies += H(j) == (int)b;
  vp::check(copies <= k, "at most one copy per function");
  const size_t len = e < before ? t.table_[b][e].size() : 0;
  const char byte = q < len ? t.table_[b][e][q] : 0;
  absl::Status s = t.Insert(x);
  size_t after = t.table_[b].size();
  vp::cover("inserted or refused");
  vp::check(s.ok() || limited, "without a limit every insertion succeeds");
  vp::check(s.ok() || s.code() == absl::StatusCode::kInternal, "a refused insertion is an internal error");
  vp::check(after == before + (s.ok() ? copies : 0), "a bucket gains one entry per function assigning it in a successful insertion, none in a failed one");
  if (e < before) {
    vp::check(t.table_[b][e].size() == len, "old entries keep their length");
    if (q < len) vp::check(t.table_[b][e][q] == byte, "and their bytes");
  }
  if (before <= e && e < after) {
    vp::check(t.table_[b][e].size() == x.size(), "an entry gained has the length of the element");
    vp::check(q >= x.size() || t.table_[b][e][q] == x[q], "and its bytes");
  }
}
VP_HARNESS(create) {
  int n = vp::any<int>("buckets"), limit = vp::any<int>("limit");
  bool limited = vp::any<bool>("limited");
  std::vector<HashFunction> f;
  vp::havoc(f, "functions");
  size_t k = f.size();
  auto t = SimpleHashTable::Create(std::move(f), n, limited ? absl::optional<int>(limit) : absl::nullopt);
  vp::check(t.ok() == (n > 0 && k >= 1 && (!limited || limit > 0)), "exactly the documented parameters are accepted");
  if (!t.ok()) {
    vp::check(t.status().code() == absl::StatusCode::kInvalidArgument, "others are invalid arguments");
    return;
  }
  vp::check((*t)->table_.size() == (size_t)n && (*t)->num_buckets_ == n && (*t)->hash_functions_.size() == k, "the table has the buckets and functions asked for");
  vp::check((*t)->max_bucket_size_.has_value() == limited && (!limited || *(*t)->max_bucket_size_ == limit), "and the limit");
  vp::forall(0, n, "all buckets start empty", [&](size_t b) { return (*t)->table_[b].empty(); });
}
