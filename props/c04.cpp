#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
static void put(const Eigen::Matrix3d& R, double* o) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = R(i, j); }
static void put(const Eigen::Quaterniond& q, double* o) { o[0] = q.w(); o[1] = q.x(); o[2] = q.y(); o[3] = q.z(); }
static void put(const Eigen::Vector3d& v, double* o) { for (int i = 0; i < 3; i++) o[i] = v(i); }
VP int e2m(double r, double p, double y, double* o, int cap) { put(eulerAnglesZYXToRotationMatrix(Eigen::Vector3d(r, p, y)), o); return 9; }
VP int e2q(double r, double p, double y, double* o, int cap) { put(eulerAnglesZYXToQuaternion(Eigen::Vector3d(r, p, y)), o); return 4; }
VP int e2q2m(double r, double p, double y, double* o, int cap) { put(quaternionToRotationMatrix(eulerAnglesZYXToQuaternion(Eigen::Vector3d(r, p, y))), o); return 9; }
VP int q2m(double w, double x, double y, double z, double* o, int cap) { put(quaternionToRotationMatrix(Eigen::Quaterniond(w, x, y, z)), o); return 9; }
VP int q2e(double w, double x, double y, double z, double* o, int cap) { put(quaternionToEulerAnglesZYX(Eigen::Quaterniond(w, x, y, z)), o); return 3; }
VP int q2m2e(double w, double x, double y, double z, double* o, int cap) { put(rotationMatrixToEulerAnglesZYX(quaternionToRotationMatrix(Eigen::Quaterniond(w, x, y, z))), o); return 3; }
VP int e2m2e(double r, double p, double y, double* o, int cap) { put(rotationMatrixToEulerAnglesZYX(eulerAnglesZYXToRotationMatrix(Eigen::Vector3d(r, p, y))), o); return 3; }
VP int e2q2e(double r, double p, double y, double* o, int cap) { put(quaternionToEulerAnglesZYX(eulerAnglesZYXToQuaternion(Eigen::Vector3d(r, p, y))), o); return 3; }
// a rotation matrix given through a unit quaternion: matrix -> quaternion -> matrix
VP int m2q2m(double w, double x, double y, double z, double* o, int cap) { put(quaternionToRotationMatrix(RotationMatrixToQuaternion(quaternionToRotationMatrix(Eigen::Quaterniond(w, x, y, z)))), o); return 9; }
VP int m2q(double w, double x, double y, double z, double* o, int cap) { put(RotationMatrixToQuaternion(quaternionToRotationMatrix(Eigen::Quaterniond(w, x, y, z))), o); return 4; }
