// P19, bounded: dense database builder histories.
#include "pir/dense_dpf_pir_database.cc"
#include "pir_common.h"
#include <deque>
using namespace vpp;
using namespace distributed_point_functions;
namespace {
typedef DenseDpfPirDatabase DB;
struct Model { std::vector<std::string> v; bool built = false; };
std::string AnyRecord() {
  switch (vp::draw_below(6)) {
    case 0: return "";
    case 1: return AnyBytes(16 * vp::draw_below(5));
    case 2: return AnyBytes(1 + 16 * vp::draw_below(4));
    case 3: return AnyBytes(vp::draw_below(200));
    default: return AnyBytes(vp::draw_below(40));
  }
}
int64_t Blocks(size_t n) { return (int64_t)((n + 15) / 16); }
void CheckDb(const DB& d, const std::vector<std::string>& v) {
  vp::check(d.size() == v.size() && d.num_selection_bits() == v.size() && d.content().size() == v.size(), "the database reports the number of records");
  size_t mx = 0;
  for (auto& s : v) mx = std::max(mx, s.size());
  vp::check(d.max_value_size_in_bytes() == mx, "the database reports the maximum record size");
  std::vector<std::pair<uintptr_t, uintptr_t>> iv;
  for (size_t i = 0; i < v.size(); ++i) {
    vp::check(d.content()[i] == v[i], "the database lists the inserted records in order, unchanged");
    if (v[i].empty()) continue;
    uintptr_t p = (uintptr_t)d.content()[i].data();
    vp::check(p % 16 == 0, "non-empty records are 16-byte aligned");
    iv.push_back({p, p + v[i].size()});
  }
  std::sort(iv.begin(), iv.end());
  for (size_t i = 0; i + 1 < iv.size(); ++i) vp::check(iv[i].second <= iv[i + 1].first, "records do not overlap");
}
}  // namespace
VP_HARNESS(histories) {
  std::deque<std::pair<std::unique_ptr<DB::Interface::Builder>, Model>> b;
  std::vector<std::pair<std::unique_ptr<DB::Interface>, std::vector<std::string>>> dbs;
  b.emplace_back(std::make_unique<DB::Builder>(), Model());
  int n = 1 + (int)vp::draw_below(30);
  for (int q = 0; q < n; ++q) {
    size_t k = vp::draw_below(b.size());
    auto& B = *b[k].first;
    Model& m = b[k].second;
    switch (vp::draw_below(8)) {
      case 0:
        vp::note("clear", std::to_string(k));
        B.Clear();
        m = Model();
        break;
      case 1:
        if (b.size() < 4) {
          vp::note("clone", std::to_string(k));
          Model c = m;
          b.emplace_back(B.Clone(), c);
        }
        break;
      case 2: {
        vp::note("build", std::to_string(k));
        auto r = B.Build();
        vp::check(r.ok() == !m.built, "a builder builds exactly once until it is cleared");
        if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kFailedPrecondition, "a second build is FAILED_PRECONDITION"); break; }
        CheckDb((DB&)**r, m.v);
        dbs.emplace_back(std::move(*r), m.v);
        m.built = true;
        break;
      }
      default: {
        std::string s = AnyRecord();
        vp::note("insert of size", std::to_string(s.size()));
        if (!m.built) m.v.push_back(s);
        B.Insert(std::move(s));
      }
    }
    for (auto& x : b) if (!x.second.built) {
      int64_t bytes = 0;
      for (auto& s : x.second.v) bytes += 16 * Blocks(s.size());
      vp::check(((DB::Builder&)*x.first).total_database_bytes() == bytes, "a builder counts the aligned bytes of its records, and builders are independent");
    }
  }
  for (auto& x : b) {
    auto r = x.first->Build();
    vp::check(r.ok() == !x.second.built, "a builder builds exactly once until it is cleared");
    if (r.ok()) CheckDb((DB&)**r, x.second.v);
  }
  b.clear();
  for (auto& d : dbs) {
    CheckDb((DB&)*d.first, d.second);
    if (d.second.empty()) continue;
    size_t mx = 0, pick = vp::draw_below(d.second.size());
    for (auto& s : d.second) mx = std::max(mx, s.size());
    std::vector<DB::BlockType> sel((d.second.size() + 127) / 128, DB::BlockType(0));
    sel[pick / 128] = DB::BlockType(absl::uint128(1) << (int)(pick % 128));
    auto r = d.first->InnerProductWith({sel});
    vp::check(r.ok() == (mx > 0), "the built database answers selections");
    if (r.ok()) {
      std::string want = d.second[pick];
      want.resize(mx);
      vp::check((*r)[0] == want, "selecting one record returns it");
    }
  }
}
VP_HARNESS(large) {
  DB::Builder b;
  std::vector<std::string> v;
  size_t n = vp::draw_below(600), mx = 1 + vp::draw_below(64);
  for (size_t i = 0; i < n; ++i) {
    v.push_back(AnyBytes(vp::draw_below(mx + 1)));
    b.Insert(v.back());
  }
  auto r = b.Build();
  vp::check(r.ok(), "any list of records builds");
  CheckDb((DB&)**r, v);
}
