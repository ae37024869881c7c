// C04: CLEAR-MOT accounting over any history.
#include <set>
#include "props/trk.h"

namespace {
namespace co = waymo::open_dataset;
void Run() {
  ref::Cfg c = ref::GenCfg(true, true);
  std::vector<trk::Seq> ss = trk::GenSeqs(3, 9, true);
  int dof = bridge::GenDof(c);
  trk::Reduce(&ss, dof);
  ref::LogCfg(c);
  trk::LogSeqs(ss);
  std::vector<float> cut = c.cutoffs;
  co::Config cfg = trk::Config(c, cut);
  bool details = sim::WP(1, 4);
  cfg.set_include_details_in_measurements(details);
  sim::NoteWorkload(sim::HashStr(cfg.SerializeAsString()) ^ trk::HashSeqs(ss));
  // The sequences are evaluated in a drawn order, some of them more than once:
  // nothing may be carried from one evaluation to the next.
  std::vector<std::vector<co::TrackingMeasurements>> per(ss.size());
  std::vector<int> order = sim::Permutation(sim::kSched, ss.size());
  int busy = 0;
  sim::Simulate([&] {
    for (int i : order) {
      std::vector<std::vector<co::Object>> p, g;
      trk::ToObjects(ss[i], dof, &p, &g);
      if (sim::FP(1, 4)) {
        sim::Fault("evaluation repeated after an abandoned attempt");
        co::ComputeTrackingMeasurements(cfg, p, g);
      }
      per[i] = co::ComputeTrackingMeasurements(cfg, p, g);
    }
  });
  trk::Table sum;
  bool have_model = true;
  for (size_t i = 0; i < ss.size(); ++i) {
    trk::Table got = trk::FromMeasurements(c, cut, per[i]);
    // Conservation, whatever the matching was.
    for (size_t b = 0; b < got.size(); ++b)
      for (size_t k = 0; k < cut.size(); ++k) {
        const trk::Count& x = got[b][k];
        if (x.gts != x.matches + x.misses)
          sim::Violation("gt-not-conserved", "%d ground truths, %d matched, %d missed", x.gts, x.matches, x.misses);
        if (x.mismatches > 2 * x.matches || x.cost < -1e-4 || x.cost > x.matches + 1e-4)
          sim::Violation("impossible-counts", "mismatches %d cost %g matches %d", x.mismatches, x.cost, x.matches);
        auto& det = per[i][b].measurements(k).details();
        if (details) {
          if (det.size() != (int)ss[i].frames.size())
            sim::Violation("details-per-frame", "%d details for %zu frames", det.size(), ss[i].frames.size());
          int tp = 0, fn = 0, fp = 0;
          for (auto& d : det) {
            if (d.tp_gt_ids_size() != d.tp_pred_ids_size()) sim::Violation("details-unpaired", "tp lists differ");
            tp += d.tp_gt_ids_size();
            fn += d.fn_gt_ids_size();
            fp += d.fp_pred_ids_size();
            // Every object is in one list, once.
            std::set<std::string> gt, pd;
            for (auto* l : {&d.tp_gt_ids(), &d.fn_gt_ids()})
              for (auto& id : *l) if (!gt.insert(id).second) sim::Violation("details-repeated", "ground truth listed twice");
            for (auto* l : {&d.tp_pred_ids(), &d.fp_pred_ids()})
              for (auto& id : *l) if (!pd.insert(id).second) sim::Violation("details-repeated", "prediction listed twice");
          }
          // Those that are excused are listed, too.
          if (fn < x.misses || fp < x.fps)
            sim::Violation("details-missing", "%d of %d misses, %d of %d false positives listed", fn, x.misses, fp, x.fps);
          if (tp != x.matches) sim::Violation("details-tp", "%d true positives listed, %d matches", tp, x.matches);
        } else if (!det.empty()) {
          sim::Violation("details-unasked", "%d details that were not asked for", det.size());
        }
      }
    trk::Table want;
    if (trk::Model(c, cut, {ss[i]}, &want)) {
      trk::CompareTables(c, cut, got, want, "model");
    } else {
      have_model = false;
    }
    trk::AddTable(&sum, got);
    int n = 0;
    for (auto& f : ss[i].frames) n += !f.pds.empty() && !f.gts.empty();
    busy += n >= 3;
  }
  if (busy >= 1) sim::Nontrivial();
  // Summation over sequences, in any order and grouping.
  std::vector<std::vector<co::TrackingMeasurements>> perm;
  std::vector<int> porder = sim::Permutation(sim::kSched, ss.size());
  for (int i : porder) perm.push_back(per[i]);
  std::vector<co::TrackingMetrics> out = co::ComputeTrackingMetrics(cfg, perm);
  // The details of every frame of every sequence, in the order of the sequences.
  auto check_details = [&](const co::TrackingMetrics& o, size_t b, const std::vector<int>& seqs, const char* how) {
    for (size_t k = 0; k < cut.size(); ++k) {
      co::TrackingMeasurement want, got;
      for (int i : seqs) want.mutable_details()->MergeFrom(per[i][b].measurements(k).details());
      *got.mutable_details() = o.measurements().measurements(k).details();
      if (got.details_size() != want.details_size())
        sim::Violation("details-not-summed", "%s: %d details of %d frames", how, got.details_size(), want.details_size());
      if (got.SerializeAsString() != want.SerializeAsString())
        sim::Violation("details-mixed-up", "%s: details of %d frames differ from those of the sequences", how, want.details_size());
    }
  };
  if (!ss.empty()) {
    std::vector<ref::Row> rows = ref::Rows(c);
    if (out.size() != rows.size()) sim::Violation("wrong-breakdown-count", "%zu metrics", out.size());
    for (size_t i = 0; i < rows.size(); ++i) {
      const auto& o = out[i];
      trk::CheckMetric(rows[i], trk::Finish(sum[i], cut),
                       {o.mota(), o.motp(), o.miss(), o.mismatch(), o.fp(), o.score_cutoff()}, "sum");
      if (o.breakdown().generator_id() != rows[i].id || o.breakdown().shard() != rows[i].shard ||
          o.breakdown().difficulty_level() != rows[i].level)
        sim::Violation("wrong-breakdown", "metric %zu", i);
      if (o.measurements().measurements_size() != (int)cut.size())
        sim::Violation("wrong-cutoff-count", "%d measurements", o.measurements().measurements_size());
      check_details(o, i, porder, "sum");
    }
    if (sim::W(2)) {  // all sequences in one call
      std::vector<std::vector<std::vector<co::Object>>> p, g;
      for (auto& s : ss) { p.emplace_back(); g.emplace_back(); trk::ToObjects(s, dof, &p.back(), &g.back()); }
      std::vector<co::TrackingMetrics> all = co::ComputeTrackingMetrics(cfg, p, g);
      if (all.size() != rows.size()) sim::Violation("wrong-breakdown-count", "%zu metrics", all.size());
      for (size_t i = 0; i < rows.size(); ++i) {
        const auto& o = all[i];
        trk::CheckMetric(rows[i], trk::Finish(sum[i], cut),
                         {o.mota(), o.motp(), o.miss(), o.mismatch(), o.fp(), o.score_cutoff()}, "one-call");
        if (o.measurements().measurements_size() != (int)cut.size())
          sim::Violation("wrong-cutoff-count", "%d measurements", o.measurements().measurements_size());
        std::vector<int> in_order(ss.size());
        for (size_t j = 0; j < ss.size(); ++j) in_order[j] = j;
        check_details(o, i, in_order, "one-call");
      }
    }
  }
  (void)have_model;
}
sim::Register reg("C04", Run, trk::Warm);
}  // namespace
