// Camera calibrations, images and points, and an independent model of the
// projection. Nothing here uses the camera library.
#ifndef WODSIM_CAM_H_
#define WODSIM_CAM_H_
#include <array>
#include <cmath>
#include <string>
#include <vector>

#include "props/ops.h"
#include "rt/sim.h"
#include "waymo_open_dataset/dataset.pb.h"

namespace cam {
namespace co = waymo::open_dataset;
using V3 = std::array<double, 3>;
using M3 = std::array<std::array<double, 3>, 3>;
inline M3 Rot(double yaw, double pitch, double roll) {
  double cy = cos(yaw), sy = sin(yaw), cp = cos(pitch), sp = sin(pitch), cr = cos(roll), sr = sin(roll);
  return {{{cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr},
           {sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr},
           {-sp, cp * sr, cp * cr}}};
}
inline M3 T(const M3& a) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[j][i];
  return r;
}
inline M3 Mul(const M3& a, const M3& b) {
  M3 r{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
inline V3 Mul(const M3& a, const V3& v) {
  V3 r{};
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i] += a[i][k] * v[k];
  return r;
}
inline V3 Add(const V3& a, const V3& b, double k = 1) { return {a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]}; }
inline V3 Cross(const V3& a, const V3& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline double Norm(const V3& a) { return sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }

struct Calib {
  std::array<double, 9> in;  // f_u f_v c_u c_v k1 k2 p1 p2 k3
  M3 R;
  V3 t;
  int width = 0, height = 0, dir = 1;
};
struct Image {
  M3 R;
  V3 t, v, w;
  double pose_ts = 0, shutter = 0, trigger = 0, done = 0;
};
enum { kTop = 1, kLeft = 2, kBottom = 3, kRight = 4, kGlobal = 5 };

inline Calib GenCalib() {
  Calib c;
  const int sizes[][2] = {{1920, 1280}, {1920, 886}, {640, 480}, {640, 1280}};
  auto& s = sizes[sim::W(4)];
  c.width = s[0];
  c.height = s[1];
  double f = sim::WU(0.7, 1.4) * std::max(s[0], s[1]);
  c.in = {f, f * sim::WU(0.98, 1.02), s[0] * sim::WU(0.45, 0.55), s[1] * sim::WU(0.45, 0.55), 0, 0, 0, 0, 0};
  if (sim::WP(1, 2)) {
    c.in[4] = sim::WU(-0.06, 0.06);
    c.in[5] = sim::WU(-0.06, 0.06);
    c.in[6] = sim::WU(-0.001, 0.001);
    c.in[7] = sim::WU(-0.001, 0.001);
    if (sim::WP(1, 3)) c.in[8] = sim::WU(-0.02, 0.02);
  }
  c.R = Rot(sim::WU(-3.1, 3.1), sim::WU(-0.1, 0.1), sim::WU(-0.05, 0.05));
  c.t = {sim::WU(-1, 2), sim::WU(-1, 1), sim::WU(1, 2.5)};
  c.dir = 1 + sim::W(5);
  return c;
}
inline Image GenImage() {
  Image m;
  m.R = Rot(sim::WU(-3.1, 3.1), sim::WU(-0.05, 0.05), sim::WU(-0.05, 0.05));
  double far = sim::WP(1, 2) ? 1 : 1000;
  m.t = {sim::WU(-30, 30) * far, sim::WU(-30, 30) * far, sim::WU(-20, 20)};
  m.v = {sim::WU(-15, 15), sim::WU(-15, 15), sim::WU(-1, 1)};
  m.w = {sim::WU(-0.05, 0.05), sim::WU(-0.05, 0.05), sim::WU(-0.3, 0.3)};
  if (sim::WP(1, 5)) m.v = m.w = V3{};
  m.trigger = 1000 + sim::WU(0, 1000, 100000);
  m.shutter = sim::WU(0.0002, 0.01);
  m.done = m.trigger + m.shutter + sim::WU(0.01, 0.06);
  m.pose_ts = m.trigger + sim::WU(-0.02, 0.08);
  return m;
}
inline co::CameraCalibration ToProto(const Calib& c) {
  co::CameraCalibration p;
  p.set_name(co::CameraName::FRONT);
  for (double x : c.in) p.add_intrinsic(x);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) p.mutable_extrinsic()->add_transform(c.R[i][j]);
    p.mutable_extrinsic()->add_transform(c.t[i]);
  }
  for (int j = 0; j < 4; ++j) p.mutable_extrinsic()->add_transform(j == 3);
  p.set_width(c.width);
  p.set_height(c.height);
  p.set_rolling_shutter_direction(static_cast<co::CameraCalibration::RollingShutterReadOutDirection>(c.dir));
  return p;
}
inline co::CameraImage ToProto(const Image& m) {
  co::CameraImage p;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) p.mutable_pose()->add_transform(m.R[i][j]);
    p.mutable_pose()->add_transform(m.t[i]);
  }
  for (int j = 0; j < 4; ++j) p.mutable_pose()->add_transform(j == 3);
  auto* v = p.mutable_velocity();
  v->set_v_x(m.v[0]); v->set_v_y(m.v[1]); v->set_v_z(m.v[2]);
  v->set_w_x(m.w[0]); v->set_w_y(m.w[1]); v->set_w_z(m.w[2]);
  p.set_pose_timestamp(m.pose_ts);
  p.set_shutter(m.shutter);
  p.set_camera_trigger_time(m.trigger);
  p.set_camera_readout_done_time(m.done);
  return p;
}
// Velocities travel as floats.
inline Image AsStored(Image m) {
  for (int i = 0; i < 3; ++i) { m.v[i] = static_cast<float>(m.v[i]); m.w[i] = static_cast<float>(m.w[i]); }
  return m;
}

// ---- the independent model
inline double PixelTime(const Calib& c, const Image& m, double u, double v) {  // minus the pose time
  double readout = m.done - m.trigger - m.shutter, at = 0;
  if (c.dir == kTop) at = v / c.height;
  if (c.dir == kBottom) at = 1 - v / c.height;
  if (c.dir == kLeft) at = u / c.width;
  if (c.dir == kRight) at = 1 - u / c.width;
  return m.trigger + m.shutter / 2 + readout * at - m.pose_ts;
}
inline void CameraAt(const Calib& c, const Image& m, double t, M3* R, V3* p) {
  double a = Norm(m.w) * t;
  M3 turn = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
  if (a != 0) {  // Rodrigues
    V3 k = {m.w[0] / Norm(m.w), m.w[1] / Norm(m.w), m.w[2] / Norm(m.w)};
    M3 K = {{{0, -k[2], k[1]}, {k[2], 0, -k[0]}, {-k[1], k[0], 0}}}, K2 = Mul(K, K);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) turn[i][j] += sin(a) * K[i][j] + (1 - cos(a)) * K2[i][j];
  }
  M3 veh = Mul(m.R, turn);
  *R = Mul(veh, c.R);
  *p = Add(Add(m.t, m.v, t), Mul(veh, c.t));
}
inline void Distort(const Calib& c, double x, double y, double* u, double* v, double* rd) {
  double r2 = x * x + y * y;
  *rd = 1 + r2 * (c.in[4] + r2 * (c.in[5] + r2 * c.in[8]));
  double dx = x * *rd + 2 * c.in[6] * x * y + c.in[7] * (r2 + 2 * x * x);
  double dy = y * *rd + c.in[6] * (r2 + 2 * y * y) + 2 * c.in[7] * x * y;
  *u = dx * c.in[0] + c.in[2];
  *v = dy * c.in[1] + c.in[3];
}
inline void Undistort(const Calib& c, double u, double v, double* x, double* y) {
  double xd = (u - c.in[2]) / c.in[0], yd = (v - c.in[3]) / c.in[1];
  *x = xd;
  *y = yd;
  for (int i = 0; i < 60; ++i) {
    double pu, pv, rd;
    Distort(c, *x, *y, &pu, &pv, &rd);
    *x += (u - pu) / c.in[0] / rd;
    *y += (v - pv) / c.in[1] / rd;
  }
}
struct Px { bool ok = false; double u = 0, v = 0, depth = 0, t = 0; };
inline Px Project(const Calib& c, const Image& m, const V3& p, const V3& vel, double t) {
  M3 R;
  V3 o;
  CameraAt(c, m, t, &R, &o);
  V3 q = Mul(T(R), Add(Add(p, vel, t), o, -1));
  Px r;
  r.t = t;
  r.depth = q[0];
  double rd;
  if (q[0] <= 0) return r;
  Distort(c, -q[1] / q[0], -q[2] / q[0], &r.u, &r.v, &rd);
  r.ok = rd > 0.82 && rd < 1.18;
  return r;
}
// The pixel a world point is seen at, its scan line being read when it is.
inline Px See(const Calib& c, const Image& m, const V3& p, const V3& vel) {
  if (c.dir == kGlobal) return Project(c, m, p, V3{}, 0);
  Px r = Project(c, m, p, vel, 0);
  for (int i = 0; i < 60 && r.ok; ++i) r = Project(c, m, p, vel, PixelTime(c, m, r.u, r.v));
  if (r.ok && fabs(PixelTime(c, m, r.u, r.v) - r.t) > 1e-9) r.ok = false;
  return r;
}
// The world point behind a pixel.
inline V3 Behind(const Calib& c, const Image& m, double u, double v, double depth) {
  M3 R;
  V3 o;
  CameraAt(c, m, c.dir == kGlobal ? 0 : PixelTime(c, m, u, v), &R, &o);
  double x, y;
  Undistort(c, u, v, &x, &y);
  return Add(Mul(R, V3{depth, -x * depth, -y * depth}), o);
}
// How far the published approximations (scan line time linear in undistorted
// coordinates, rotation linear in time) may be from the model, in pixels.
inline double Slack(const Calib& c, const Image& m, const Px& px, const V3& vel) {
  if (c.dir == kGlobal) return 0;
  double readout = m.done - m.trigger - m.shutter, x, y, x0, y0, x1, y1, at, lin;
  Undistort(c, px.u, px.v, &x, &y);
  if (c.dir == kLeft || c.dir == kRight) {
    Undistort(c, 0, c.height / 2., &x0, &y0);
    Undistort(c, c.width, c.height / 2., &x1, &y1);
    at = (px.u - c.in[2]) / c.width;
    lin = x / (x1 - x0);
  } else {
    Undistort(c, c.width / 2., 0, &x0, &y0);
    Undistort(c, c.width / 2., c.height, &x1, &y1);
    at = (px.v - c.in[3]) / c.height;
    lin = y / (y1 - y0);
  }
  double dt = readout * fabs(at - lin);
  double f = std::max(c.in[0], c.in[1]), w = Norm(m.w);
  double reach = Norm(c.t);
  double rate = f * 2 * ((Norm(m.v) + Norm(vel) + w * reach) / px.depth + w);  // px per second
  double turn = w * px.t;
  // A scan line that chases the point amplifies every error.
  double chase = rate / 2 * readout / (c.dir == kLeft || c.dir == kRight ? c.width : c.height);
  if (chase > 0.6) return 1e9;
  dt /= 1 - chase;
  turn *= turn / (1 - chase);
  return 4 * dt * rate + 4 * f * turn * (1 + reach / px.depth) + 0.05;
}
}  // namespace cam
#endif
