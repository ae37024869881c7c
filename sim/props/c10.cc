// C10: camera models over drawn histories of images, projected from several
// threads at once, against models that were never used for anything else.
#include "props/cam.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"

namespace {
using namespace cam;
struct Pt {
  V3 p{}, vel{};
  double u = 0, v = 0, depth = 0;  // a pixel with depth
};
// Everything one thread asks about one point.
struct Ans {
  bool ok[3];
  double w2i[2], w2d[3], mov[3], back[3], fwd[3], veh[3];
  bool in;
};
struct Img {
  int cam;
  Image m;
  std::vector<Pt> pts;
};

Ans Ask(const co::CameraModel& model, const Pt& p, bool bounds, bool veh) {
  Ans a;
  memset(&a, 0, sizeof a);
  a.ok[0] = model.WorldToImage(p.p[0], p.p[1], p.p[2], bounds, &a.w2i[0], &a.w2i[1]);
  a.ok[1] = model.WorldToImageWithDepth(p.p[0], p.p[1], p.p[2], bounds, &a.w2d[0], &a.w2d[1], &a.w2d[2]);
  a.ok[2] = model.WorldToImageMovingPointWithDepth(p.p[0], p.p[1], p.p[2], p.vel[0], p.vel[1], p.vel[2], bounds, &a.mov[0],
                                                   &a.mov[1], &a.mov[2]);
  model.ImageToWorld(p.u, p.v, p.depth, &a.fwd[0], &a.fwd[1], &a.fwd[2]);
  if (veh) model.ImageToVehicleGlobalShutter(p.u, p.v, p.depth, &a.veh[0], &a.veh[1], &a.veh[2]);
  if (a.ok[1]) {
    model.ImageToWorld(a.w2d[0], a.w2d[1], a.w2d[2], &a.back[0], &a.back[1], &a.back[2]);
    a.in = model.InImage(a.w2d[0], a.w2d[1]);
  }
  return a;
}
std::string Show(const Ans& a) {
  return sim::StrF("%d %d %d | %.17g %.17g | %.17g %.17g %.17g | %.17g %.17g %.17g | %.17g %.17g %.17g | %.17g %.17g %.17g", a.ok[0], a.ok[1],
                   a.ok[2], a.w2i[0], a.w2i[1], a.w2d[0], a.w2d[1], a.w2d[2], a.mov[0], a.mov[1], a.mov[2], a.fwd[0], a.fwd[1],
                   a.fwd[2], a.back[0], a.back[1], a.back[2]);
}
// The answers must agree with the independent model of the camera.
void Check(const Calib& c, const Image& m, const Pt& p, const Ans& a, bool bounds) {
  double tol_floor = 1e-6;
  // pixel -> world
  V3 b = Behind(c, m, p.u, p.v, p.depth);
  Px px{true, p.u, p.v, p.depth, c.dir == kGlobal ? 0 : PixelTime(c, m, p.u, p.v)};
  double f = std::min(c.in[0], c.in[1]);
  double tol = tol_floor + (Slack(c, m, px, V3{}) / f + 1e-7) * p.depth;
  V3 got = {a.fwd[0], a.fwd[1], a.fwd[2]};
  if (!(Norm(Add(got, b, -1)) < tol))
    sim::Violation("image-to-world", "pixel (%g, %g) at depth %g lies %g m from where the camera saw it (tolerance %g)", p.u, p.v,
                   p.depth, Norm(Add(got, b, -1)), tol);
  // world -> pixel
  for (int k = 0; k < 2; ++k) {
    V3 vel = k ? p.vel : V3{};
    const double* r = k ? a.mov : a.w2d;
    bool ok = a.ok[k ? 2 : 1];
    Px s = See(c, m, p.p, vel);
    if (!s.ok) continue;
    double t2 = Slack(c, m, s, vel);
    bool near = s.u < t2 || s.v < t2 || s.u > c.width - t2 || s.v > c.height - t2;
    bool inside = s.u >= 0 && s.u < c.width && s.v >= 0 && s.v < c.height;
    if (!inside && !near && s.depth < 1) continue;
    if (!inside) {
      if (bounds && !near && ok)
        sim::Violation("outside-accepted", "a point seen at (%g, %g) of a %dx%d image counts as visible", s.u, s.v, c.width, c.height);
      continue;
    }
    if (s.depth < 3) continue;
    if (!ok) {
      if (bounds && near) continue;
      sim::Violation("visible-rejected", "a point seen at (%g, %g) depth %g is not projected", s.u, s.v, s.depth);
    }
    if (!(hypot(r[0] - s.u, r[1] - s.v) < t2 + 1e-4) || !(fabs(r[2] - s.depth) < (t2 / f + 1e-6) * s.depth * 2))
      sim::Violation(k ? "moving-point" : "world-to-image", "a point seen at (%g, %g) depth %g is projected to (%g, %g) depth %g (tolerance %g px)",
                     s.u, s.v, s.depth, r[0], r[1], r[2], t2);
    sim::Probe("point seen in the image");
    if (k == 0) {
      V3 back = {a.back[0], a.back[1], a.back[2]};
      double d = Norm(Add(back, p.p, -1)), lim = 1e-6 + (2 * t2 / f + 1e-7) * s.depth;
      if (!(d < lim)) sim::Violation("round-trip", "a point at depth %g comes back %g m away (tolerance %g)", s.depth, d, lim);
      if (memcmp(a.w2i, a.w2d, sizeof a.w2i) != 0 || a.ok[0] != a.ok[1])
        sim::Violation("depth-changes-pixel", "(%.17g, %.17g) without depth, (%.17g, %.17g) with", a.w2i[0], a.w2i[1], a.w2d[0], a.w2d[1]);
    }
  }
}

tensorflow::Tensor TD(const std::vector<int64_t>& s, const std::vector<double>& v, bool dbl) {
  if (dbl) return ops::Make<double>(tensorflow::DT_DOUBLE, s, v);
  return ops::Make<float>(tensorflow::DT_FLOAT, s, std::vector<float>(v.begin(), v.end()));
}
// The same points through the ops, with the values a double tensor can hold.
void CheckOps(const Calib& c, const Img& im, const std::vector<Ans>& want) {
  std::vector<double> ex, in(c.in.begin(), c.in.end()), img, xyz, vel, px;
  co::CameraCalibration pc = ToProto(c);
  co::CameraImage pi = ToProto(im.m);
  for (double x : pc.extrinsic().transform()) ex.push_back(x);
  for (double x : pi.pose().transform()) img.push_back(x);
  for (double x : {(double)pi.velocity().v_x(), (double)pi.velocity().v_y(), (double)pi.velocity().v_z(), (double)pi.velocity().w_x(),
                   (double)pi.velocity().w_y(), (double)pi.velocity().w_z(), pi.pose_timestamp(), pi.shutter(), pi.camera_trigger_time(),
                   pi.camera_readout_done_time()})
    img.push_back(x);
  int n = im.pts.size();
  for (auto& p : im.pts) {
    for (int i = 0; i < 3; ++i) { xyz.push_back(p.p[i]); vel.push_back(p.vel[i]); }
    px.insert(px.end(), {p.u, p.v, p.depth});
  }
  auto meta = ops::Make<int32_t>(tensorflow::DT_INT32, {3}, {c.width, c.height, c.dir});
  int which = sim::W(3);
  bool depth = sim::W(2);
  std::vector<tensorflow::DataType> types(5, tensorflow::DT_DOUBLE);
  types[2] = tensorflow::DT_INT32;
  std::vector<tensorflow::Tensor> ins = {TD({4, 4}, ex, true), TD({9}, in, true), meta, TD({26}, img, true), TD({n, 3}, which == 2 ? px : xyz, true)};
  if (which == 1) { types.push_back(tensorflow::DT_DOUBLE); ins.push_back(TD({n, 3}, vel, true)); }
  const char* name[] = {"WorldToImage", "WorldToImageMovingPoint", "ImageToWorld"};
  ops::Kernel k(name[which], types, [&](tensorflow::NodeDef* d) {
    (*d->mutable_attr())["T"].set_type(tensorflow::DT_DOUBLE);
    if (which < 2) (*d->mutable_attr())["return_depth"].set_b(depth);
  });
  if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());
  ops::Result r = k.Run(ins);
  if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());
  int cols = which == 2 ? 3 : depth ? 4 : 3;
  if (r.out[0].dims() != 2 || r.out[0].dim_size(0) != n || r.out[0].dim_size(1) != cols)
    sim::Violation("op-shape", "%s", r.out[0].shape().DebugString().c_str());
  auto o = r.out[0].matrix<double>();
  for (int i = 0; i < n; ++i) {
    const Ans& a = want[i];
    double e[4];
    if (which == 2) memcpy(e, a.fwd, sizeof a.fwd);
    else {
      const double* s = which ? a.mov : a.w2d;
      e[0] = s[0]; e[1] = s[1];
      if (depth) e[2] = s[2];
      e[cols - 1] = a.ok[which ? 2 : 1];
    }
    for (int j = 0; j < cols; ++j)
      if (!(o(i, j) == e[j]))
        sim::Violation("op-differs", "%s point %d column %d: %.17g, the camera model gives %.17g", name[which], i, j, o(i, j), e[j]);
  }
  sim::Probe("op compared with the library");
}

void Run() {
  int ncam = 1 + sim::W(3);
  std::vector<Calib> cams;
  for (int i = 0; i < ncam; ++i) cams.push_back(GenCalib());
  int nimg = 1 + sim::W(5);
  std::vector<Img> imgs;
  uint64_t h = 7;
  for (int i = 0; i < nimg; ++i) {
    Img im;
    im.cam = sim::W(ncam);
    if (i && sim::WP(1, 5)) im.m = imgs[sim::W(i)].m;  // the same image again
    else {
      im.m = GenImage();
      if (i && sim::WP(1, 3)) {  // differs from an earlier image in one respect
        Image o = imgs[sim::W(i)].m;
        switch (sim::W(4)) {
          case 0: o.v = im.m.v; break;
          case 1: o.w = im.m.w; break;
          case 2: o.pose_ts += sim::WU(-0.02, 0.02); break;
          default: o.R = im.m.R; break;
        }
        im.m = o;
      }
    }
    const Calib& c = cams[im.cam];
    Image st = AsStored(im.m);
    int n = 1 + sim::W(6);
    for (int k = 0; k < n; ++k) {
      Pt p;
      p.u = c.width * sim::WU(0.02, 0.98);
      p.v = c.height * sim::WU(0.02, 0.98);
      p.depth = sim::WU(4, 80);
      double over = sim::WP(1, 4) ? 1.6 : 0.96;
      p.p = Behind(c, st, c.width * (0.5 + sim::WU(-0.5, 0.5) * over), c.height * (0.5 + sim::WU(-0.5, 0.5) * over), sim::WU(4, 80));
      if (sim::WP(1, 8)) p.p = Add(st.t, V3{sim::WU(-50, 50), sim::WU(-50, 50), sim::WU(-3, 10)});  // anywhere, also behind
      if (sim::WP(1, 2)) p.vel = {sim::WU(-15, 15), sim::WU(-15, 15), sim::WU(-1, 1)};
      im.pts.push_back(p);
    }
    h = sim::HashBytes(im.pts.data(), im.pts.size() * sizeof(Pt), sim::HashStr(ToProto(im.m).SerializeAsString(), h + im.cam));
    imgs.push_back(im);
  }
  for (auto& c : cams) h = sim::HashStr(ToProto(c).SerializeAsString(), h);
  sim::NoteWorkload(h);
  for (auto& c : cams) sim::Log("camera %s", ToProto(c).ShortDebugString().c_str());
  for (auto& i : imgs) sim::Log("image camera=%d %s", i.cam, ToProto(i.m).ShortDebugString().c_str());
  bool bounds = sim::W(2);

  // What a model that never saw anything else says.
  std::vector<std::vector<Ans>> want(nimg);
  for (int i = 0; i < nimg; ++i) {
    const Calib& c = cams[imgs[i].cam];
    co::CameraModel fresh(ToProto(c));
    fresh.PrepareProjection(ToProto(imgs[i].m));
    for (auto& p : imgs[i].pts) want[i].push_back(Ask(fresh, p, bounds, true));
    for (size_t k = 0; k < imgs[i].pts.size(); ++k) Check(c, AsStored(imgs[i].m), imgs[i].pts[k], want[i][k], bounds);
  }

  // One long-lived model per camera; images are taken up in drawn order and
  // batches; several threads project with a model, and other models are
  // prepared meanwhile.
  std::vector<std::unique_ptr<co::CameraModel>> models;
  for (auto& c : cams) models.push_back(std::make_unique<co::CameraModel>(ToProto(c)));
  size_t most = 0;
  sim::Simulate([&] {
    size_t next = 0;
    std::vector<int> order = sim::Permutation(sim::kSched, nimg);
    while (next < order.size()) {
      // A batch takes at most one image per camera.
      std::vector<int> batch;
      std::vector<char> used(ncam, 0);
      while (next < order.size() && batch.size() < 3 && !used[imgs[order[next]].cam]) {
        used[imgs[order[next]].cam] = 1;
        batch.push_back(order[next++]);
        if (sim::Draw(sim::kSched, 3) == 0) break;
      }
      std::vector<int> tids;
      for (int b : batch) {
        tids.push_back(sim::Spawn([&, b] {
          const Img& im = imgs[b];
          co::CameraModel* model = models[im.cam].get();
          if (sim::F(3) == 2) {  // taken up for another image, given up
            sim::Fault("image abandoned half way");
            int o = sim::F(nimg);
            model->PrepareProjection(ToProto(imgs[o].m));
            int n = sim::F(imgs[o].pts.size() + 1);
            for (int k = 0; k < n; ++k) Ask(*model, imgs[o].pts[k], !bounds, false);
          }
          model->PrepareProjection(ToProto(im.m));
          int nt = 1 + sim::Draw(sim::kSched, 3);
          std::vector<int> inner;
          for (int t = 0; t < nt; ++t)
            inner.push_back(sim::Spawn([&, b, t, model] {
              const Img& im = imgs[b];
              int n = im.pts.size();
              for (int k = 0; k < n; ++k) {
                int at = (k + t) % n;
                Ans a = Ask(*model, im.pts[at], bounds, true);
                if (memcmp(&a, &want[b][at], sizeof a) != 0)
                  sim::Violation("history-changes-projection", "image %d point %d:\n  fresh model  %s\n  this history %s", b, at,
                                 Show(want[b][at]).c_str(), Show(a).c_str());
              }
            }));
          sim::JoinAll(inner);
        }));
      }
      most = std::max(most, batch.size());
      sim::JoinAll(tids);
    }
  });
  if (nimg >= 2) sim::Nontrivial();
  if (most > 1) sim::Probe("several models at the same time");
  if (!bounds && sim::WP(1, 3)) {
    int i = sim::W(nimg);
    CheckOps(cams[imgs[i].cam], imgs[i], want[i]);
  }
}
void Warm() {
  Calib c;
  c.in = {2000, 2000, 960, 640, 0, 0, 0, 0, 0};
  c.R = Rot(0, 0, 0);
  c.t = V3{};
  c.width = 1920;
  c.height = 1280;
  c.dir = kGlobal;
  co::CameraModel m(ToProto(c));
}
sim::Register reg("C10", Run, Warm);
}  // namespace
