// P21, bounded: PIR clients.
#include "pir/dense_dpf_pir_client.cc"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "dpf_common.h"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
namespace {
typedef DpfPirRequest::PlainRequest Plain;
typedef DpfPirRequest::HelperRequest Helper;
struct Sent { std::string plain, ctx; };
int Log2Up(int64_t n) { int k = 0; while (((absl::uint128)1 << k) < (absl::uint128)n) ++k; return k; }
std::unique_ptr<DistributedPointFunction> Dpf(int log_domain) {
  DpfParameters p;
  p.set_log_domain_size(log_domain);
  p.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
  auto d = DistributedPointFunction::Create(p);
  vp::check(d.ok(), "the domain of selections has a valid point function");
  return std::move(*d);
}
// the two requests are shares of the selections of the given indices
void CheckRequests(const Plain& a, const Helper& h, int64_t n, const std::vector<int>& idx) {
  const Plain& b = h.plain_request();
  vp::check(a.dpf_key_size() == (int)idx.size() && b.dpf_key_size() == (int)idx.size(), "one key per queried index for each server");
  vp::check(h.one_time_pad_seed().size() == 16, "the helper's request carries a seed");
  auto dpf = Dpf(Log2Up(n));
  for (size_t i = 0; i < idx.size(); ++i) {
    vp::check(a.dpf_key(i).party() != b.dpf_key(i).party(), "the keys are for different parties");
    uint64_t blk = (uint64_t)idx[i] / 128;
    std::vector<absl::uint128> xs = {blk, blk ^ 1, 0, (uint64_t)((n - 1) / 128), vp::draw64() % ((uint64_t)(n - 1) / 128 + 1)};
    if (Log2Up(n) == 0) xs = {0};
    auto u = dpf->EvaluateAt<XorWrapper<absl::uint128>>(a.dpf_key(i), 0, xs);
    auto v = dpf->EvaluateAt<XorWrapper<absl::uint128>>(b.dpf_key(i), 0, xs);
    vp::check(u.ok() && v.ok(), "the keys evaluate");
    for (size_t k = 0; k < xs.size(); ++k) {
      absl::uint128 want = xs[k] == (absl::uint128)blk ? (absl::uint128)1 << (idx[i] % 128) : (absl::uint128)0;
      vp::check(((*u)[k] + (*v)[k]).value() == want, "the keys are shares of the selection of the queried index");
    }
    if (n <= 3000) {
      auto cu = dpf->CreateEvaluationContext(a.dpf_key(i)), cv = dpf->CreateEvaluationContext(b.dpf_key(i));
      auto fu = dpf->EvaluateNext<XorWrapper<absl::uint128>>({}, *cu), fv = dpf->EvaluateNext<XorWrapper<absl::uint128>>({}, *cv);
      vp::check(fu.ok() && fv.ok() && (int64_t)fu->size() * 128 >= n, "the keys cover the database");
      for (size_t k = 0; k < fu->size(); ++k)
        vp::check(((*fu)[k] + (*fv)[k]).value() == (k == blk ? (absl::uint128)1 << (idx[i] % 128) : (absl::uint128)0), "the keys are shares of the selection of the queried index");
    }
  }
}
int64_t AnySize() {
  switch (vp::draw_below(8)) {
    case 0: return 1 + (int64_t)vp::draw_below(4);
    case 1: return ((int64_t)1 << vp::draw_below(40)) + (int64_t)vp::draw_below(3) - 1;
    case 2: return 128 * (1 + (int64_t)vp::draw_below(20)) + (int64_t)vp::draw_below(3) - 1;
    case 3: return 2147483647 - (int64_t)vp::draw_below(2);
    default: return 1 + (int64_t)vp::draw_below(3000);
  }
}
struct Enc { Sent* s; bool fail; absl::StatusOr<std::string> operator()(absl::string_view p, absl::string_view c) const {
  s->plain = std::string(p);
  s->ctx = std::string(c);
  if (fail) return absl::UnavailableError("no");
  return absl::StrCat("enc:", p);
} };
template <class Q, class C> void CheckLeader(const C& client, const Q& q, const Sent& s, const std::string& ctx, bool fail, int64_t n, const std::vector<int>& idx, uint32_t fp) {
  auto r = client.CreateRequest(q);
  vp::check(s.ctx == ctx, "the encrypter gets the context info");
  vp::check(r.ok() == !fail, "an encryption failure is reported");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kUnavailable, "an encryption failure is reported"); return; }
  vp::check(r->first.dpf_pir_request().has_leader_request(), "a request is for the leader");
  auto& l = r->first.dpf_pir_request().leader_request();
  vp::check(l.encrypted_helper_request().encrypted_request() == "enc:" + s.plain, "the helper's request is sent encrypted");
  Helper h;
  vp::check(h.ParseFromString(s.plain), "the encrypted text is a helper request");
  vp::check(l.plain_request().seed_fingerprint() == fp && h.plain_request().seed_fingerprint() == fp, "both requests carry the fingerprint of the hash seed");
  CheckRequests(l.plain_request(), h, n, idx);
}
}  // namespace
VP_HARNESS(dense_requests) {
  PirConfig c;
  int64_t n = std::max<int64_t>(1, AnySize());
  bool bad_n = vp::draw_below(12) == 0;
  if (bad_n) n = -(int64_t)vp::draw_below(3);
  c.mutable_dense_dpf_pir_config()->set_num_elements(n);
  bool wrong = vp::draw_below(20) == 0, null = vp::draw_below(20) == 0, fail = vp::draw_below(8) == 0;
  if (wrong) c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(5);
  Sent s;
  std::string ctx = AnyStr(10);
  DpfPirClient<absl::Span<const int>, std::vector<std::string>>::EncryptHelperRequestFn e;
  if (!null) e = Enc{&s, fail};
  auto r = DenseDpfPirClient::Create(c, std::move(e), ctx);
  vp::note("size", std::to_string(n));
  vp::check(r.ok() == (!bad_n && !wrong && !null), "clients are created exactly from valid arguments");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  std::vector<int> idx;
  size_t q = vp::draw_below(5);
  int64_t top = std::min<int64_t>(n, 2147483648ll);
  bool in = true;
  for (size_t i = 0; i < q; ++i) {
    int64_t x = vp::draw_below(4) ? (int64_t)(vp::draw64() % (uint64_t)top) : top - 1;
    if (vp::draw_below(20) == 0) x = vp::draw64() & 1 ? n : -1;
    if (x > 2147483647) x = 2147483647;
    in = in && x >= 0 && x < n;
    idx.push_back((int)x);
    vp::note("index", std::to_string(x));
  }
  auto p = (*r)->CreatePlainRequests(idx);
  vp::check(p.ok() == in, "indices are accepted exactly when inside the database");
  if (!p.ok()) {
    vp::check(p.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT");
    vp::check(!(*r)->CreateRequest(idx).ok(), "indices are accepted exactly when inside the database");
    return;
  }
  CheckRequests(std::get<0>(*p), std::get<1>(*p), n, idx);
  vp::check(std::get<2>(*p).dense_dpf_pir_request_client_state().one_time_pad_seed() == std::get<1>(*p).one_time_pad_seed(), "the client keeps the seed it sends");
  CheckLeader(**r, absl::Span<const int>(idx), s, ctx, fail, n, idx, 0);
}
namespace {
PirResponse Masked(const std::vector<std::string>& rec, const std::string& seed) {
  PirResponse r;
  size_t total = 0;
  for (auto& x : rec) total += x.size();
  std::string pad = CtrStream(seed, std::string(16, '\0'), total);
  size_t at = 0;
  r.mutable_dpf_pir_response();
  for (auto x : rec) {
    for (auto& ch : x) ch ^= pad[at++];
    r.mutable_dpf_pir_response()->add_masked_response(x);
  }
  return r;
}
auto kEnc = [](absl::string_view, absl::string_view) { return absl::StatusOr<std::string>("x"); };
}  // namespace
VP_HARNESS(dense_responses) {
  PirConfig c;
  c.mutable_dense_dpf_pir_config()->set_num_elements(100);
  auto r = DenseDpfPirClient::Create(c, kEnc, "");
  std::vector<std::string> rec;
  for (size_t q = vp::draw_below(6); q > 0; --q) rec.push_back(AnyStr(vp::draw64() & 1 ? 20 : 100));
  std::string seed = AnyBytes(vp::draw_below(6) ? 16 : vp::draw_below(30));
  PirResponse resp = Masked(rec, seed.size() == 16 ? seed : std::string(16, 'a'));
  PirRequestClientState st;
  st.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(seed);
  bool good = !rec.empty() && seed.size() == 16;
  if (vp::draw_below(12) == 0) { resp.Clear(); good = false; }
  if (vp::draw_below(12) == 0) { st.Clear(); good = false; }
  else if (vp::draw_below(12) == 0) { st.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(seed); good = false; }
  auto out = (*r)->HandleResponse(resp, st);
  vp::check(out.ok() == good, "responses are accepted exactly when response, state and seed are well formed");
  if (!good) { vp::check(out.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  vp::check(*out == rec, "handling a response removes the one-time pad, in order");
  vp::check(*(*r)->HandleResponse(resp, st) == rec, "handling the same response twice gives the same records");
}
namespace {
uint32_t Fingerprint(const std::string& seed) { return (uint32_t)RefSha("", seed, 2147483647); }
std::string NoNul(std::string s) { if (!s.empty() && s.back() == '\0') s.back() = 1; return s; }
int64_t AnyBuckets() { return vp::draw_below(10) ? 1 + (int64_t)vp::draw_below(300) : vp::draw_below(2) ? (int64_t)vp::draw_below(3) - 2 : ((int64_t)1 << 32) + (int64_t)vp::draw_below(6) - 2; }
}  // namespace
VP_HARNESS(cuckoo_client) {
  PirServerPublicParams sp;
  auto* p = sp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
  std::string seed = AnyStr(16);
  if (seed.empty() && vp::draw_below(3)) seed = "s";
  p->mutable_hash_family_config()->set_seed(seed);
  p->mutable_hash_family_config()->set_hash_family(vp::draw_below(15) ? HashFamilyConfig::HASH_FAMILY_SHA256 : HashFamilyConfig::HASH_FAMILY_UNSPECIFIED);
  bool good = !seed.empty() && p->hash_family_config().hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256;
  int64_t n = AnyBuckets();
  int k = vp::draw_below(12) ? 1 + (int)vp::draw_below(4) : -(int)vp::draw_below(2);
  p->set_num_buckets(n);
  p->set_num_hash_functions(k);
  good = good && n > 0 && n <= 2147483647 && k > 0;
  if (vp::draw_below(25) == 0) { sp.mutable_simple_hashing_sparse_dpf_pir_server_params(); good = false; }
  Sent s;
  bool fail = vp::draw_below(8) == 0;
  vp::note("buckets, functions", std::to_string(n) + " " + std::to_string(k));
  auto r = CuckooHashingSparseDpfPirClient::Create(sp, Enc{&s, fail}, "ctx");
  vp::check(r.ok() == good, "clients are created exactly from valid parameters");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  std::vector<std::string> q;
  std::vector<int> idx;
  for (size_t i = vp::draw_below(4); i > 0; --i) q.push_back(NoNul(vp::draw64() & 1 ? AnyStr(4, true) : AnyStr(10)));
  for (auto& x : q) for (int j = 0; j < k; ++j) idx.push_back(RefSha(seed + std::to_string(j), x, (int)n));
  auto pr = (*r)->CreatePlainRequests(q);
  vp::check(pr.ok(), "every key can be queried");
  auto& a = std::get<0>(*pr);
  auto& h = std::get<1>(*pr);
  auto& st = std::get<2>(*pr);
  CheckRequests(a, h, n, idx);
  vp::check(a.seed_fingerprint() == Fingerprint(seed) && h.plain_request().seed_fingerprint() == Fingerprint(seed), "both requests carry the fingerprint of the hash seed");
  auto& cs = st.cuckoo_hashing_sparse_dpf_pir_request_client_state();
  vp::check(cs.one_time_pad_seed() == h.one_time_pad_seed() && std::vector<std::string>(cs.query_strings().begin(), cs.query_strings().end()) == q, "the client keeps the seed and the queries");
  CheckLeader(**r, absl::Span<const std::string>(q), s, "ctx", fail, n, idx, Fingerprint(seed));
  // a response: per query and hash function a padded key and a padded value
  size_t mk = 1 + vp::draw_below(8), mv = vp::draw_below(8);
  std::vector<std::string> rec;
  std::vector<absl::optional<std::string>> want;
  for (auto& x : q) {
    want.push_back(absl::nullopt);
    for (int j = 0; j < k; ++j) {
      std::string key;
      switch (vp::draw_below(4)) {
        case 0: key = ""; break;
        case 1: key = x; break;
        case 2: key = x.substr(0, x.size() / 2); break;
        default: key = NoNul(AnyStr(8)); break;
      }
      if (key.size() > mk) key = NoNul(key.substr(0, mk));
      if (x.empty() && key.empty()) key = "z";  // the empty key cannot be stored
      std::string val = AnyBytes(mv);
      vp::note("query / stored key", vp::hex(x.data(), x.size()) + " " + vp::hex(key.data(), key.size()) + " of " + std::to_string(mk));
      if (key == x && !want.back()) want.back() = val;
      key.resize(mk);
      rec.push_back(key);
      rec.push_back(val);
    }
  }
  PirResponse resp = Masked(rec, cs.one_time_pad_seed());
  auto out = (*r)->HandleResponse(resp, st);
  vp::check(out.ok() == !q.empty(), "a matching response is accepted");
  if (out.ok()) vp::check(*out == want, "the answer for a key is the value stored with exactly that key, or none");
  auto* mr = resp.mutable_dpf_pir_response();
  if (vp::draw64() & 1 || q.empty()) mr->add_masked_response("x");
  else mr->mutable_masked_response()->RemoveLast();
  vp::check((*r)->HandleResponse(resp, st).status().code() == absl::StatusCode::kInvalidArgument, "responses with the wrong number of parts are rejected");
  vp::check(!(*r)->HandleResponse(resp, PirRequestClientState()).ok() && !(*r)->HandleResponse(PirResponse(), st).ok(), "responses and states of the wrong kind are rejected");
}
VP_HARNESS(simple_client) {
  PirServerPublicParams sp;
  auto* p = sp.mutable_simple_hashing_sparse_dpf_pir_server_params();
  std::string seed = AnyStr(16);
  if (seed.empty() && vp::draw_below(3)) seed = "s";
  p->mutable_hash_family_config()->set_seed(seed);
  p->mutable_hash_family_config()->set_hash_family(vp::draw_below(15) ? HashFamilyConfig::HASH_FAMILY_SHA256 : HashFamilyConfig::HASH_FAMILY_UNSPECIFIED);
  bool good = !seed.empty() && p->hash_family_config().hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256;
  int64_t n = AnyBuckets();
  p->set_num_buckets(n);
  good = good && n > 0 && n <= 2147483647;
  if (vp::draw_below(25) == 0) { sp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params(); good = false; }
  Sent s;
  bool fail = vp::draw_below(8) == 0;
  vp::note("buckets", std::to_string(n));
  auto r = SimpleHashingSparseDpfPirClient::Create(sp, Enc{&s, fail}, "ctx");
  vp::check(r.ok() == good, "clients are created exactly from valid parameters");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  std::vector<std::string> q;
  std::vector<int> idx;
  for (size_t i = vp::draw_below(4); i > 0; --i) q.push_back(vp::draw64() & 1 ? AnyStr(4, true) : AnyStr(10));
  for (auto& x : q) idx.push_back(RefSha(seed + "0", x, (int)n));
  auto pr = (*r)->CreatePlainRequests(q);
  vp::check(pr.ok(), "every key can be queried");
  auto& a = std::get<0>(*pr);
  auto& h = std::get<1>(*pr);
  auto& st = std::get<2>(*pr);
  CheckRequests(a, h, n, idx);
  vp::check(a.seed_fingerprint() == Fingerprint(seed) && h.plain_request().seed_fingerprint() == Fingerprint(seed), "both requests carry the fingerprint of the hash seed");
  auto& cs = st.simple_hashing_sparse_dpf_pir_request_client_state();
  vp::check(cs.one_time_pad_seed() == h.one_time_pad_seed() && std::vector<std::string>(cs.query_strings().begin(), cs.query_strings().end()) == q, "the client keeps the seed and the queries");
  CheckLeader(**r, absl::Span<const std::string>(q), s, "ctx", fail, n, idx, Fingerprint(seed));
  std::vector<std::string> rec;
  std::vector<absl::optional<std::string>> want;
  bool malformed = false;
  for (auto& x : q) {
    HashedPirDatabaseBucket b;
    want.push_back(absl::nullopt);
    for (size_t j = vp::draw_below(4); j > 0; --j) {
      std::string key = vp::draw_below(3) == 0 ? x : vp::draw64() & 1 ? x + AnyStr(2) : AnyStr(5), val = AnyStr(10);
      b.add_keys(key);
      b.add_values(val);
      if (key == x && !want.back()) want.back() = val;
    }
    if (vp::draw_below(10) == 0) { b.add_keys(x); malformed = true; }  // a key without a value
    std::string t = b.SerializeAsString();
    t.resize(t.size() + vp::draw_below(10), '\0');
    rec.push_back(t);
  }
  PirResponse resp = Masked(rec, cs.one_time_pad_seed());
  auto out = (*r)->HandleResponse(resp, st);
  if (!malformed) {
    vp::check(out.ok() == !q.empty(), "a matching response is accepted");
    if (out.ok()) vp::check(*out == want, "the answer for a key is the value stored with exactly that key, or none");
  } else if (out.ok()) {
    for (size_t i = 0; i < q.size(); ++i) vp::check((*out)[i] == want[i], "a key without a value is no answer");
  }
  resp.mutable_dpf_pir_response()->add_masked_response("x");
  vp::check((*r)->HandleResponse(resp, st).status().code() == absl::StatusCode::kInvalidArgument, "responses with the wrong number of parts are rejected");
  vp::check(!(*r)->HandleResponse(resp, PirRequestClientState()).ok() && !(*r)->HandleResponse(PirResponse(), st).ok(), "responses and states of the wrong kind are rejected");
}
