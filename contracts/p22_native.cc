// P22, bounded: PIR server roles and request handling.
#include "pir/dpf_pir_server.cc"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "dpf_common.h"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
namespace {
constexpr auto kBad = absl::StatusCode::kInvalidArgument;
// a server whose plain answers are given
struct Fake : DpfPirServer {
  absl::StatusOr<PirResponse> answer;
  mutable PirRequest seen;
  mutable int calls = 0;
  absl::StatusOr<PirResponse> HandlePlainRequest(const PirRequest& r) const override { seen = r; ++calls; return answer; }
  const PirServerPublicParams& GetPublicParams() const override { return PirServerPublicParams::default_instance(); }
};
std::vector<std::string> AnyParts() {
  std::vector<std::string> v(vp::draw_below(5));
  for (auto& s : v) s = AnyStr(vp::draw64() & 1 ? 5 : 60);
  return v;
}
PirResponse Resp(const std::vector<std::string>& v) {
  PirResponse r;
  r.mutable_dpf_pir_response();
  for (auto& s : v) r.mutable_dpf_pir_response()->add_masked_response(s);
  return r;
}
std::vector<std::string> Parts(const PirResponse& r) { return {r.dpf_pir_response().masked_response().begin(), r.dpf_pir_response().masked_response().end()}; }
DpfPirRequest::PlainRequest AnyPlain() {
  DpfPirRequest::PlainRequest p;
  p.set_seed_fingerprint((uint32_t)vp::draw64());
  for (size_t i = vp::draw_below(3); i > 0; --i) p.add_dpf_key()->set_party((int)vp::draw_below(2));
  return p;
}
bool Same(const google::protobuf::Message& a, const google::protobuf::Message& b) { return a.SerializeAsString() == b.SerializeAsString(); }
PirRequest AnyRequest() {
  PirRequest r;
  switch (vp::draw_below(5)) {
    case 0: *r.mutable_dpf_pir_request()->mutable_plain_request() = AnyPlain(); break;
    case 1: r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(AnyStr(20)); break;
    case 2: r.mutable_dpf_pir_request(); break;
    case 3: break;
    case 4:
      if (vp::draw64() & 1) *r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = AnyPlain();
      if (vp::draw64() & 1) r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(AnyStr(20));
      r.mutable_dpf_pir_request()->mutable_leader_request();
      break;
  }
  return r;
}
}  // namespace
VP_HARNESS(leader) {
  Fake s;
  vp::check(s.role() == DpfPirServer::Role::kPlain, "a new server is plain");
  vp::check(s.MakeLeader(nullptr).code() == kBad, "a leader needs a sender");
  auto mine = AnyParts(), theirs = mine;
  for (auto& x : theirs) x = AnyBytes(x.size());
  bool match = true;
  switch (vp::draw_below(5)) {
    case 0: theirs = AnyParts(); break;
    case 1: if (!theirs.empty()) theirs[vp::draw_below(theirs.size())] += "x"; break;
    case 2: theirs.push_back("x"); break;
    default: break;
  }
  match = mine.size() == theirs.size();
  for (size_t i = 0; match && i < mine.size(); ++i) match = mine[i].size() == theirs[i].size();
  bool fail = vp::draw_below(8) == 0, send_fails = vp::draw_below(8) == 0, run = vp::draw_below(8) != 0;
  s.answer = Resp(mine);
  if (fail) s.answer = absl::NotFoundError("x");
  PirRequest sent;
  int sends = 0;
  vp::check(s.MakeLeader([&](const PirRequest& r, absl::AnyInvocable<void()> cb) -> absl::StatusOr<PirResponse> {
    sent = r;
    ++sends;
    if (run) cb();
    if (send_fails) return absl::UnavailableError("y");
    return Resp(theirs);
  }).ok() && s.role() == DpfPirServer::Role::kLeader, "a server can be made a leader");
  PirRequest r = AnyRequest();
  if (vp::draw_below(3)) {
    *r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = AnyPlain();
    r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(AnyStr(20));
  }
  auto& l = r.dpf_pir_request().leader_request();
  bool valid = r.dpf_pir_request().has_leader_request() && l.has_plain_request() && l.has_encrypted_helper_request();
  auto out = s.HandleRequest(r);
  if (!valid) { vp::check(out.status().code() == kBad && s.calls == 0 && sends == 0, "a leader rejects requests of other kinds and with missing parts"); return; }
  vp::check(sends == 1 && Same(sent.dpf_pir_request().encrypted_helper_request(), l.encrypted_helper_request()) && sent.dpf_pir_request().has_encrypted_helper_request(), "the helper receives its encrypted request");
  if (run) vp::check(s.calls == 1 && s.seen.dpf_pir_request().has_plain_request() && Same(s.seen.dpf_pir_request().plain_request(), l.plain_request()), "the leader answers its own plain request");
  vp::check(out.ok() == (run && !send_fails && !fail && match), "a leader answers exactly when both answers arrive and match in number and size");
  if (out.ok()) {
    for (size_t i = 0; i < mine.size(); ++i) for (size_t j = 0; j < mine[i].size(); ++j) mine[i][j] ^= theirs[i][j];
    vp::check(Parts(*out) == mine, "a leader's response is the XOR of both answers");
  } else {
    auto want = send_fails ? absl::StatusCode::kUnavailable : !run ? absl::StatusCode::kFailedPrecondition : fail ? absl::StatusCode::kNotFound : absl::StatusCode::kInternal;
    vp::check(out.status().code() == want, "a leader reports which step failed");
  }
}
VP_HARNESS(helper) {
  Fake s;
  vp::check(s.MakeHelper(nullptr, "c").code() == kBad, "a helper needs a decrypter");
  auto mine = AnyParts();
  bool fail = vp::draw_below(8) == 0, dec_fails = vp::draw_below(8) == 0, junk = vp::draw_below(8) == 0;
  s.answer = Resp(mine);
  if (fail) s.answer = absl::NotFoundError("x");
  DpfPirRequest::HelperRequest inner;
  *inner.mutable_plain_request() = AnyPlain();
  std::string seed = AnyBytes(vp::draw_below(6) ? 16 : vp::draw_below(30));
  inner.set_one_time_pad_seed(seed);
  std::string cipher, info;
  vp::check(s.MakeHelper([&](absl::string_view c, absl::string_view i) -> absl::StatusOr<std::string> {
    cipher = std::string(c);
    info = std::string(i);
    if (dec_fails) return absl::UnavailableError("y");
    if (junk) return std::string("\xff\xff\xff\xff");
    return inner.SerializeAsString();
  }, "the context").ok() && s.role() == DpfPirServer::Role::kHelper, "a server can be made a helper");
  PirRequest r = AnyRequest();
  std::string text = AnyStr(20);
  if (vp::draw_below(3)) r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(text);
  bool valid = r.dpf_pir_request().has_encrypted_helper_request();
  text = r.dpf_pir_request().encrypted_helper_request().encrypted_request();
  auto out = s.HandleRequest(r);
  if (!valid) { vp::check(out.status().code() == kBad && s.calls == 0, "a helper rejects requests of other kinds"); return; }
  vp::check(cipher == text && info == "the context", "the decrypter receives the request and the context info");
  vp::check(out.ok() == (!dec_fails && !junk && !fail && seed.size() == 16), "a helper answers exactly when its request decrypts and has a valid seed");
  if (!out.ok()) {
    vp::check(out.status().code() == (dec_fails ? absl::StatusCode::kUnavailable : junk ? kBad : fail ? absl::StatusCode::kNotFound : kBad), "a helper reports which step failed");
    return;
  }
  vp::check(s.calls == 1 && Same(s.seen.dpf_pir_request().plain_request(), inner.plain_request()), "a helper answers the decrypted plain request");
  size_t total = 0, at = 0;
  for (auto& x : mine) total += x.size();
  std::string pad = CtrStream(seed, std::string(16, '\0'), total);
  for (auto& x : mine) for (auto& c : x) c ^= pad[at++];
  vp::check(Parts(*out) == mine, "a helper's response is its answer XORed with the expansion of the client's seed, in order");
}
namespace {
typedef XorWrapper<absl::uint128> W;
std::unique_ptr<DistributedPointFunction> Dpf(int64_t n) {
  DpfParameters p;
  int k = 0;
  while (((int64_t)1 << k) < n) ++k;
  p.set_log_domain_size(k);
  p.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
  return std::move(*DistributedPointFunction::Create(p));
}
// keys for arbitrary selections, and the selection of party 0
struct Keys { DpfPirRequest::PlainRequest p; std::vector<std::vector<W>> sel; };
Keys AnyKeysFor(int64_t n) {
  Keys r;
  auto d = Dpf(n);
  for (size_t q = 1 + vp::draw_below(3); q > 0; --q) {
    uint64_t x = vp::draw64() % (uint64_t)n;
    auto k = d->GenerateKeys(x / 128, W((absl::uint128)1 << (int)(x % 128)));
    auto& key = vp::draw64() & 1 ? k->first : k->second;
    auto c = d->CreateEvaluationContext(key);
    r.sel.push_back(*d->EvaluateNext<W>({}, *c));
    *r.p.add_dpf_key() = key;
  }
  return r;
}
bool Bit(const std::vector<W>& s, size_t i) { return (absl::Uint128Low64(s[i / 128].value() >> (int)(i % 128)) & 1) != 0; }
std::string Select(const std::vector<std::string>& v, const std::vector<W>& s) {
  size_t mx = 0;
  for (auto& x : v) mx = std::max(mx, x.size());
  std::string r(mx, '\0');
  for (size_t i = 0; i < v.size(); ++i) if (Bit(s, i)) for (size_t j = 0; j < v[i].size(); ++j) r[j] ^= v[i][j];
  return r;
}
void Kinds(const DpfPirServer& s, const Keys& k) {
  PirRequest r = AnyRequest();
  if (!r.dpf_pir_request().has_plain_request()) vp::check(s.HandleRequest(r).status().code() == kBad, "a plain server rejects requests of other kinds");
  PirRequest e;
  e.mutable_dpf_pir_request()->mutable_plain_request();
  vp::check(s.HandleRequest(e).status().code() == kBad, "a request without keys is rejected");
  PirRequest b;
  *b.mutable_dpf_pir_request()->mutable_plain_request() = k.p;
  b.mutable_dpf_pir_request()->mutable_plain_request()->mutable_dpf_key(0)->clear_seed();
  vp::check(s.HandleRequest(b).status().code() == kBad, "a request with a malformed key is rejected");
}
}  // namespace
VP_HARNESS(dense) {
  int64_t n = vp::draw_below(4) ? 1 + (int64_t)vp::draw_below(20) : 1 + (int64_t)vp::draw_below(600);
  std::vector<std::string> v;
  DenseDpfPirDatabase::Builder b;
  for (int64_t i = 0; i < n; ++i) { v.push_back(AnyBytes(vp::draw_below(12))); b.Insert(v.back()); }
  v[0] = "first";
  b.Clear();
  for (auto& x : v) b.Insert(x);
  auto db = std::move(*b.Build());
  PirConfig c;
  int64_t m = vp::draw_below(10) ? n : n + (int64_t)vp::draw_below(3) - 1;
  c.mutable_dense_dpf_pir_config()->set_num_elements(m);
  bool wrong = vp::draw_below(20) == 0, null = vp::draw_below(20) == 0;
  if (wrong) c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(n);
  if (null) db = nullptr;
  auto s = DenseDpfPirServer::CreatePlain(c, std::move(db));
  vp::check(s.ok() == (!wrong && !null && m == n), "servers are created exactly from valid, matching arguments");
  if (!s.ok()) { vp::check(s.status().code() == kBad, "rejections are INVALID_ARGUMENT"); return; }
  Keys k = AnyKeysFor(n);
  PirRequest r;
  *r.mutable_dpf_pir_request()->mutable_plain_request() = k.p;
  auto out = (*s)->HandleRequest(r);
  vp::check(out.ok() && out->dpf_pir_response().masked_response_size() == (int)k.sel.size(), "one answer per key");
  for (size_t q = 0; q < k.sel.size(); ++q) vp::check(Parts(*out)[q] == Select(v, k.sel[q]), "an answer is the inner product of the database with the key's selection");
  Kinds(**s, k);
}
VP_HARNESS(cuckoo) {
  typedef CuckooHashedDpfPirDatabase DB;
  CuckooHashingParams p;
  std::string seed = "s" + AnyStr(10);
  p.mutable_hash_family_config()->set_seed(seed);
  p.mutable_hash_family_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  size_t n = 1 + vp::draw_below(10);
  int64_t nb = (int64_t)(2 * n + vp::draw_below(200));
  p.set_num_buckets(nb);
  p.set_num_hash_functions(3);
  DB::Builder b;
  b.SetParams(p);
  for (size_t i = 0; i < n; ++i) b.Insert({absl::StrCat(i, "k", AnyStr(4)), AnyStr(12) + "v"});
  auto built = b.Build();
  vp::assume(built.ok());
  auto db = std::move(*built);
  std::vector<std::string> ks, vs;
  for (auto x : ((DenseDpfPirDatabase&)*((DB&)*db).key_database_).content()) ks.emplace_back(x);
  for (auto x : ((DenseDpfPirDatabase&)*((DB&)*db).value_database_).content()) vs.emplace_back(x);
  bool good = true;
  if (vp::draw_below(12) == 0) { p.set_num_buckets(nb + 1 - 2 * (int)vp::draw_below(2)); good = false; }
  if (vp::draw_below(15) == 0) { p.set_num_hash_functions(0); good = false; }
  if (vp::draw_below(15) == 0) { p.mutable_hash_family_config()->clear_hash_family(); good = false; }
  if (vp::draw_below(15) == 0) { db = nullptr; good = false; }
  auto s = CuckooHashingSparseDpfPirServer::CreatePlain(p, std::move(db));
  vp::check(s.ok() == good, "servers are created exactly from valid, matching arguments");
  if (!s.ok()) { vp::check(s.status().code() == kBad, "rejections are INVALID_ARGUMENT"); return; }
  vp::check(Same((*s)->GetPublicParams().cuckoo_hashing_sparse_dpf_pir_server_params(), p), "a server publishes its parameters");
  Keys k = AnyKeysFor(nb);
  PirRequest r;
  uint32_t fp = (uint32_t)RefSha("", seed, 2147483647), f = vp::draw_below(3) ? fp : vp::draw64() & 1 ? 0 : (uint32_t)vp::draw64();
  k.p.set_seed_fingerprint(f);
  *r.mutable_dpf_pir_request()->mutable_plain_request() = k.p;
  auto out = (*s)->HandleRequest(r);
  vp::check(out.ok() == (f == 0 || f == fp), "a request made for other parameters is rejected");
  if (!out.ok()) { vp::check(out.status().code() == kBad, "rejections are INVALID_ARGUMENT"); return; }
  vp::check(out->dpf_pir_response().masked_response_size() == 2 * (int)k.sel.size(), "a key and a value per selection");
  for (size_t q = 0; q < k.sel.size(); ++q)
    vp::check(Parts(*out)[2 * q] == Select(ks, k.sel[q]) && Parts(*out)[2 * q + 1] == Select(vs, k.sel[q]), "an answer is the inner product of keys and values with the key's selection");
  Kinds(**s, k);
}
VP_HARNESS(simple) {
  typedef SimpleHashedDpfPirDatabase DB;
  SimpleHashingParams p;
  std::string seed = "s" + AnyStr(10);
  p.mutable_hash_family_config()->set_seed(seed);
  p.mutable_hash_family_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  size_t n = 1 + vp::draw_below(10);
  int64_t nb = 1 + (int64_t)vp::draw_below(200);
  p.set_num_buckets(nb);
  DB::Builder b;
  b.SetParams(p);
  for (size_t i = 0; i < n; ++i) b.Insert({absl::StrCat(i, "k", AnyStr(4)), AnyStr(12)});
  auto db = std::move(*b.Build());
  std::vector<std::string> vs;
  for (auto x : ((DenseDpfPirDatabase&)*((DB&)*db).dense_database_).content()) vs.emplace_back(x);
  bool good = true;
  if (vp::draw_below(12) == 0) { p.set_num_buckets(nb + 1 - 2 * (int)vp::draw_below(2)); good = false; }
  if (vp::draw_below(15) == 0) { p.mutable_hash_family_config()->clear_hash_family(); good = false; }
  if (vp::draw_below(15) == 0) { db = nullptr; good = false; }
  auto s = SimpleHashingSparseDpfPirServer::CreatePlain(p, std::move(db));
  vp::check(s.ok() == good, "servers are created exactly from valid, matching arguments");
  if (!s.ok()) { vp::check(s.status().code() == kBad, "rejections are INVALID_ARGUMENT"); return; }
  vp::check(Same((*s)->GetPublicParams().simple_hashing_sparse_dpf_pir_server_params(), p), "a server publishes its parameters");
  Keys k = AnyKeysFor(nb);
  PirRequest r;
  uint32_t fp = (uint32_t)RefSha("", seed, 2147483647), f = vp::draw_below(3) ? fp : vp::draw64() & 1 ? 0 : (uint32_t)vp::draw64();
  k.p.set_seed_fingerprint(f);
  *r.mutable_dpf_pir_request()->mutable_plain_request() = k.p;
  auto out = (*s)->HandleRequest(r);
  vp::check(out.ok() == (f == 0 || f == fp), "a request made for other parameters is rejected");
  if (!out.ok()) { vp::check(out.status().code() == kBad, "rejections are INVALID_ARGUMENT"); return; }
  vp::check(out->dpf_pir_response().masked_response_size() == (int)k.sel.size(), "one answer per key");
  for (size_t q = 0; q < k.sel.size(); ++q) vp::check(Parts(*out)[q] == Select(vs, k.sel[q]), "an answer is the inner product of the buckets with the key's selection");
  Kinds(**s, k);
}
namespace {
// client -> leader -> helper -> client
template <class S, class P, class MakeDb> std::pair<std::unique_ptr<S>, std::unique_ptr<S>> Deploy(const P& p, MakeDb mk) {
  auto h = S::CreateHelper(p, mk(), [](absl::string_view c, absl::string_view i) -> absl::StatusOr<std::string> {
    vp::check(i == S::kEncryptionContextInfo, "the helper decrypts with the context info of its protocol");
    return std::string(c.substr(4));
  });
  vp::check(h.ok(), "a helper can be created");
  S* hp = h->get();
  auto l = S::CreateLeader(p, mk(), [hp](const PirRequest& r, absl::AnyInvocable<void()> cb) { cb(); return hp->HandleRequest(r); });
  vp::check(l.ok(), "a leader can be created");
  return {std::move(*l), std::move(*h)};
}
auto Enc(absl::string_view want) { return [want](absl::string_view p, absl::string_view c) -> absl::StatusOr<std::string> {
  vp::check(c == want, "the client encrypts with the context info of its protocol");
  return absl::StrCat("enc:", p);
}; }
}  // namespace
VP_HARNESS(end_to_end) {
  size_t n = 1 + vp::draw_below(vp::draw64() & 1 ? 15 : 300);
  std::map<std::string, std::string> m;
  std::vector<std::string> v;
  size_t mx = 0;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(AnyBytes(1 + vp::draw_below(20)));
    mx = std::max(mx, v.back().size());
    m[absl::StrCat("k", i)] = v.back();
  }
  switch (vp::draw_below(3)) {
    case 0: {
      PirConfig c;
      c.mutable_dense_dpf_pir_config()->set_num_elements((int64_t)n);
      auto d = Deploy<DenseDpfPirServer>(c, [&] { DenseDpfPirDatabase::Builder b; for (auto& x : v) b.Insert(x); return std::move(*b.Build()); });
      auto cl = DenseDpfPirClient::Create(c, Enc(DenseDpfPirServer::kEncryptionContextInfo));
      std::vector<int> q;
      for (size_t i = 1 + vp::draw_below(3); i > 0; --i) q.push_back((int)vp::draw_below(n));
      auto r = (*cl)->CreateRequest(q);
      vp::check(r.ok(), "a request is created");
      auto a = d.first->HandleRequest(r->first);
      vp::check(a.ok(), "the leader answers");
      auto o = (*cl)->HandleResponse(*a, r->second);
      vp::check(o.ok() && o->size() == q.size(), "the response decodes");
      for (size_t i = 0; i < q.size(); ++i) { std::string w = v[q[i]]; w.resize(mx); vp::check((*o)[i] == w, "a client gets the queried records"); }
      break;
    }
    default: {
      bool cuckoo = vp::draw64() & 1;
      std::vector<std::string> q;
      for (size_t i = 1 + vp::draw_below(3); i > 0; --i) q.push_back(absl::StrCat("k", vp::draw_below(n + 2)));
      PirConfig c;
      std::vector<absl::optional<std::string>> out;
      if (cuckoo) {
        c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements((int64_t)n);
        c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
        auto p = CuckooHashingSparseDpfPirServer::GenerateParams(c);
        vp::check(p.ok() && p->num_buckets() >= (int64_t)n && p->num_hash_functions() > 1 && p->hash_family_config().seed().size() == 16, "generated parameters are usable");
        auto mk = [&] { CuckooHashedDpfPirDatabase::Builder b; b.SetParams(*p); for (auto& x : m) b.Insert(x); auto r = b.Build(); vp::assume(r.ok()); return std::move(*r); };
        auto d = Deploy<CuckooHashingSparseDpfPirServer>(*p, mk);
        auto cl = CuckooHashingSparseDpfPirClient::Create(d.first->GetPublicParams(), Enc(CuckooHashingSparseDpfPirServer::kEncryptionContextInfo));
        auto r = (*cl)->CreateRequest(q);
        vp::check(r.ok(), "a request is created");
        auto a = d.first->HandleRequest(r->first);
        vp::check(a.ok(), "the leader answers");
        auto o = (*cl)->HandleResponse(*a, r->second);
        vp::check(o.ok() && o->size() == q.size(), "the response decodes");
        out = *o;
      } else {
        c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(1 + (int64_t)vp::draw_below(2 * n));
        c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
        auto p = SimpleHashingSparseDpfPirServer::GenerateParams(c);
        vp::check(p.ok() && p->num_buckets() == c.simple_hashing_sparse_dpf_pir_config().num_buckets() && p->hash_family_config().seed().size() == 16, "generated parameters are usable");
        auto mk = [&] { SimpleHashedDpfPirDatabase::Builder b; b.SetParams(*p); for (auto& x : m) b.Insert(x); return std::move(*b.Build()); };
        auto d = Deploy<SimpleHashingSparseDpfPirServer>(*p, mk);
        auto cl = SimpleHashingSparseDpfPirClient::Create(d.first->GetPublicParams(), Enc(SimpleHashingSparseDpfPirServer::kEncryptionContextInfo));
        auto r = (*cl)->CreateRequest(q);
        vp::check(r.ok(), "a request is created");
        auto a = d.first->HandleRequest(r->first);
        vp::check(a.ok(), "the leader answers");
        auto o = (*cl)->HandleResponse(*a, r->second);
        vp::check(o.ok() && o->size() == q.size(), "the response decodes");
        out = *o;
      }
      for (size_t i = 0; i < q.size(); ++i) {
        auto it = m.find(q[i]);
        if (it == m.end()) { vp::check(!out[i], "a client gets no record for a key that is not stored"); continue; }
        std::string w = it->second;
        if (cuckoo) w.resize(mx);
        vp::check(out[i] && *out[i] == w, "a client gets the queried records");
      }
    }
  }
}
