// P20, bounded: hashed databases.
#include "pir/cuckoo_hashed_dpf_pir_database.cc"
#define CheckHasNotBeenBuilt CheckHasNotBeenBuilt2
#include "pir/simple_hashed_dpf_pir_database.cc"
#undef CheckHasNotBeenBuilt
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
namespace {
typedef DenseDpfPirDatabase Dense;
HashFamilyConfig AnyConfig(bool* good) {
  HashFamilyConfig c;
  std::string s = AnyStr(16);
  c.set_seed(s);
  c.set_hash_family(vp::draw_below(8) ? HashFamilyConfig::HASH_FAMILY_SHA256 : HashFamilyConfig::HASH_FAMILY_UNSPECIFIED);
  *good = !s.empty() && c.hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256;
  return c;
}
std::vector<std::pair<std::string, std::string>> AnyRecords(bool dup, bool* empty_key) {
  std::vector<std::pair<std::string, std::string>> r;
  size_t n = vp::draw_below(12);
  bool small = vp::draw64() & 1;
  *empty_key = false;
  for (size_t i = 0; i < n; ++i) {
    std::string k = AnyStr(small ? 3 : 20, small);
    if (k.empty() && vp::draw_below(10)) k = "e";
    if (k.empty()) *empty_key = true;
    r.push_back({k, AnyStr(30)});
    vp::note("record", vp::hex(r.back().first.data(), r.back().first.size()) + " -> " + vp::hex(r.back().second.data(), r.back().second.size()));
  }
  return r;
}
}  // namespace
VP_HARNESS(cuckoo) {
  typedef CuckooHashedDpfPirDatabase DB;
  bool cfg, ek;
  CuckooHashingParams p;
  *p.mutable_hash_family_config() = AnyConfig(&cfg);
  auto recs = AnyRecords(true, &ek);
  std::map<std::string, std::string> m(recs.begin(), recs.end());  // the first record of a key counts
  int64_t buckets = vp::draw_below(8) ? (int64_t)(m.size() * 3 / 2 + 2 + vp::draw_below(10)) : (int64_t)vp::draw_below(8) - 2;
  int k = vp::draw_below(6) ? 2 + (int)vp::draw_below(3) : (int)vp::draw_below(5) - 2;
  p.set_num_buckets(buckets);
  p.set_num_hash_functions(k);
  vp::note("buckets, functions", std::to_string(buckets) + " " + std::to_string(k));
  std::string seed = p.hash_family_config().seed();
  std::unique_ptr<DB::Interface::Builder> b = std::make_unique<DB::Builder>();
  ((DB::Builder&)*b).SetParams(p);
  if (vp::draw64() & 1) ((DB::Builder&)*b).SetKeyDatabaseBuilder(std::make_unique<Dense::Builder>());
  if (vp::draw64() & 1) {
    auto vb = std::make_unique<Dense::Builder>();
    vb->Insert("junk");
    ((DB::Builder&)*b).SetValueDatabaseBuilder(std::move(vb));
  }
  if (vp::draw_below(3) == 0) {
    b->Insert({"stale", "record"});
    if (vp::draw64() & 1) (void)b->Build();
    b->Clear();
  }
  size_t i = 0, clone_at = vp::draw_below(recs.size() + 1);
  std::unique_ptr<DB::Interface::Builder> other;
  for (; i < clone_at; ++i) b->Insert(recs[i]);
  if (vp::draw64() & 1) {
    other = b->Clone();
    if (vp::draw64() & 1) std::swap(b, other);
    other->Insert({"other", "clone"});
    if (vp::draw64() & 1) other->Clear();
  }
  for (; i < recs.size(); ++i) b->Insert(recs[i]);
  auto r = b->Build();
  bool valid = cfg && buckets > 0 && k > 1 && !ek;
  if (!valid) vp::check(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "invalid parameters and empty keys are rejected");
  auto again = b->Build();
  vp::check(!again.ok() && again.status().code() == absl::StatusCode::kFailedPrecondition, "a builder builds once");
  if (!valid) return;
  if (m.size() > (size_t)buckets) vp::check(!r.ok(), "more keys than buckets do not fit");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kInternal, "a table without room is INTERNAL"); vp::assume(false); }
  DB& d = (DB&)**r;
  vp::check(d.size() == m.size() && d.num_selection_bits() == (size_t)buckets, "sizes are reported truthfully");
  auto kc = ((Dense&)*d.key_database_).content(), vc = ((Dense&)*d.value_database_).content();
  vp::check(kc.size() == (size_t)buckets && vc.size() == (size_t)buckets, "keys and values have one entry per bucket");
  {  // the same records give the same layout, whatever the order of insertion
    DB::Builder c;
    c.SetParams(p);
    auto rev = std::vector<std::pair<std::string, std::string>>(m.begin(), m.end());
    std::reverse(rev.begin(), rev.end());
    for (auto& x : rev) c.Insert(x);
    auto e = c.Build();
    vp::check(e.ok(), "building the same database twice gives the same outcome");
    auto kd = ((Dense&)*((DB&)**e).key_database_).content(), vd = ((Dense&)*((DB&)**e).value_database_).content();
    vp::check(kd == kc && vd == vc, "two servers that build from the same records and parameters get the same layout");
  }
  size_t found = 0;
  for (size_t j = 0; j < kc.size(); ++j) {
    if (kc[j].empty()) { vp::check(vc[j].empty(), "unused buckets hold empty strings"); continue; }
    ++found;
    auto it = m.find(std::string(kc[j]));
    vp::check(it != m.end() && vc[j] == it->second, "a key and its value are at the same index");
    bool can = false;
    for (int h = 0; h < k; ++h) can = can || RefSha(seed + std::to_string(h), kc[j], (int)buckets) == (int)j;
    vp::check(can, "a key is at one of the places its hash functions assign");
  }
  vp::check(found == m.size(), "every key is stored once");
  size_t mk = 0, mv = 0;
  for (auto& x : m) mk = std::max(mk, x.first.size()), mv = std::max(mv, x.second.size());
  std::vector<std::vector<DB::BlockType>> sel(vp::draw_below(3));
  std::vector<size_t> at;
  for (auto& s : sel) {
    at.push_back(vp::draw_below((uint64_t)buckets));
    s.assign((size_t)(buckets + 127) / 128, DB::BlockType(0));
    s[at.back() / 128] = DB::BlockType(absl::uint128(1) << (int)(at.back() % 128));
  }
  auto q = d.InnerProductWith(sel);
  vp::check(q.ok() == (sel.empty() || (mk > 0 && mv > 0)), "a database with contents answers selections");
  if (!q.ok()) return;
  vp::check(q->size() == sel.size(), "one answer per selection");
  for (size_t j = 0; j < sel.size(); ++j) {
    std::string a(kc[at[j]]), c(vc[at[j]]);
    a.resize(mk);
    c.resize(mv);
    vp::check((*q)[j].first == a && (*q)[j].second == c, "an answer pairs the selected key with its value");
  }
}
VP_HARNESS(simple) {
  typedef SimpleHashedDpfPirDatabase DB;
  bool cfg, ek;
  SimpleHashingParams p;
  *p.mutable_hash_family_config() = AnyConfig(&cfg);
  auto recs = AnyRecords(true, &ek);
  int64_t buckets = (int64_t)vp::draw_below(20) - 1;
  if (vp::draw_below(12) == 0) buckets = ((int64_t)1 << 32) + (int64_t)vp::draw_below(4) - 1;
  p.set_num_buckets(buckets);
  vp::note("buckets", std::to_string(buckets));
  std::string seed = p.hash_family_config().seed();
  std::unique_ptr<DB::Interface::Builder> b = std::make_unique<DB::Builder>();
  ((DB::Builder&)*b).SetParams(p);
  if (vp::draw64() & 1) {
    auto vb = std::make_unique<Dense::Builder>();
    vb->Insert("junk");
    ((DB::Builder&)*b).SetDenseDatabaseBuilder(std::move(vb));
  }
  if (vp::draw_below(3) == 0) {
    b->Insert({"stale", "record"});
    if (buckets < 100 && vp::draw64() & 1) (void)b->Build();
    b->Clear();
  }
  size_t i = 0, clone_at = vp::draw_below(recs.size() + 1);
  std::unique_ptr<DB::Interface::Builder> other;
  for (; i < clone_at; ++i) b->Insert(recs[i]);
  if (vp::draw64() & 1) {
    other = b->Clone();
    if (vp::draw64() & 1) std::swap(b, other);
    other->Insert({"other", "clone"});
    if (vp::draw64() & 1) other->Clear();
  }
  for (; i < recs.size(); ++i) b->Insert(recs[i]);
  auto r = b->Build();
  bool valid = cfg && buckets > 0 && buckets <= 2147483647 && !ek;
  vp::check(r.ok() == valid, "a database builds exactly with valid parameters and without empty keys");
  auto again = b->Build();
  vp::check(!again.ok() && again.status().code() == absl::StatusCode::kFailedPrecondition, "a builder builds once");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  DB& d = (DB&)**r;
  vp::check(d.size() == recs.size() && d.num_selection_bits() == (size_t)buckets, "sizes are reported truthfully");
  auto c = ((Dense&)*d.dense_database_).content();
  vp::check(c.size() == (size_t)buckets, "one serialized bucket per bucket");
  std::vector<std::vector<std::pair<std::string, std::string>>> want((size_t)buckets);
  for (auto& x : recs) want[RefSha(seed + "0", x.first, (int)buckets)].push_back(x);
  size_t mx = 0;
  for (size_t j = 0; j < c.size(); ++j) {
    mx = std::max(mx, c[j].size());
    HashedPirDatabaseBucket pb;
    vp::check(pb.ParseFromString(std::string(c[j])), "buckets parse");
    std::vector<std::pair<std::string, std::string>> got;
    vp::check(pb.keys_size() == pb.values_size(), "every key has a value");
    for (int k = 0; k < pb.keys_size(); ++k) got.push_back({pb.keys(k), pb.values(k)});
    vp::check(got == want[j], "a bucket holds exactly the records its hash function assigns to it, in order");
  }
  size_t at = vp::draw_below((uint64_t)buckets);
  std::vector<DB::BlockType> s((size_t)(buckets + 127) / 128, DB::BlockType(0));
  s[at / 128] = DB::BlockType(absl::uint128(1) << (int)(at % 128));
  auto q = d.InnerProductWith({s});
  vp::check(q.ok() == (mx > 0), "a database with contents answers selections");
  if (q.ok()) {
    std::string a(c[at]);
    a.resize(mx);
    vp::check(q->size() == 1 && (*q)[0] == a, "an answer is the selected bucket");
  }
}
