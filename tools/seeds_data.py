"""planted bugs: each edit is (file under src/MathUtils, old text, new text)"""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
seed("c02-rpm-pivot", "C02", [("Unit.h", "        piv = RADS2HZ(DEGM2RADS(in));", "        piv = RADS2HZ(DEGS2RADS(in) * 60);")],
     "a conversion whose source unit is deg/min", "convert_frequency from deg/min multiplies by 60 instead of dividing",
     '''  CHECK(near(convert_frequency(120., DEGM, DEGS), 2.));
  CHECK(near(convert_frequency(convert_frequency(0.3, HERTZ, DEGM), DEGM, HERTZ), 0.3));''')
seed("c05-plateau", "C05", [("Interp1d.h", "      a.push_back((yii - yi) / xii_m_xi);\n      b.push_back((yi * xii - xi * yii) / xii_m_xi);", "      a.push_back((yii - yi) / xii_m_xi);\n      b.push_back(yi == yii ? this->yval->front() : (yi * xii - xi * yii) / xii_m_xi);")],
     "two consecutive equal samples that differ from the first sample", "on a plateau the interpolant returns the first sample",
     '''  auto x = std::make_shared<std::vector<double>>(std::vector<double>{2, 3, 5, 6}); auto y = std::make_shared<std::vector<double>>(std::vector<double>{10, 20, 20, 40});
  auto p = Interp1d<double, double>::MakeInterp1d(LINEAR); p->Initialize(x, y);
  CHECK(near(p->Eval(2.5), 15)); CHECK(near(p->Eval(5.5), 30)); CHECK(near(p->Eval(4), 20));''')
seed("c12-derivative-at-centre", "C12", [("Polynomial.h", "    T result = (size - 1) * coefficients.at(size - 1);", "    if (x0 == 0. && size > 2) return T(coefficients.at(2));\n    T result = (size - 1) * coefficients.at(size - 1);")],
     "a derivative asked exactly at the centre of the domain", "the wrong coefficient is returned as the slope at the centre",
     '''  VectorN<double> b(3); b << 1, 2, 3; PowerSeries1dClosed<double> s(b, -1, 3);
  CHECK(near(s.Evaluate_derivative_x(2), 0.5 * (2 + 6 * 0.5))); CHECK(near(s.Evaluate_derivative_x(1), 1));''')
seed("c14-logspace-base", "C14", [("VectorGeneration.h", "            out.at(i) = pow(base, out.at(i));", "            out.at(i) = exp(out.at(i) * 2.302585092994046);")],
     "a base other than ten", "logspace ignores its base",
     '''  auto a = logspace(0., 3., 4); CHECK(near(a[3], 1000)); auto b = logspace(0., 3., 4, 2.); CHECK(near(b[3], 8)); CHECK(near(b[1], 2));''')
seed("c15-diag", "C15", [("Matrix.h", "        newMat = other.template selfadjointView<Eigen::Lower>();", "        newMat = other.template selfadjointView<Eigen::Lower>(); newMat.diagonal() = newMat.diagonal().cwiseAbs();")],
     "a matrix with a negative diagonal entry", "MakeSymmetricFromLower changes the sign of negative diagonal entries",
     '''  MatrixMN<double> m(2, 2); m << 1, 2, 3, -4; auto s = MakeSymmetricFromLower(m);
  CHECK(s(0, 1) == 3 && s(1, 0) == 3 && s(0, 0) == 1); CHECK(s(1, 1) == -4);''')
seed("c01-half-turn", "C01", [("Angles.h", "    Real angle = modulo360(a + 180);\n    if (angle <= 0) {", "    Real angle = modulo360(a + 180);\n    if (angle <= 0 && a != -540) {")],
     "the angle -540 (odd multiples of a half turn below the interval)", "Normalize__180_180(-540) returns the excluded end -180",
     '''  CHECK(Normalize__180_180(-180.) == 180.); CHECK(Normalize__180_180(540.) == 180.); CHECK(Normalize__180_180(-540.) == 180.);''')
seed("c03-transport-alias", "C03", [("Vector2d.h", "        at(0) = at(0) - point[1] * w;\n        at(1) = at(1) + point[0] * w;", "        at(0) -= point[1] * w;\n        at(1) += funit == RPM ? point[0] * pw : point[0] * w;")],
     "a rotation rate given in rpm", "the second component is transported with the unconverted rate",
     '''  Vector2d<double> v(1, 2), p(3, 4); v.TransportAtPoint(p, 60., RPM); double w = 2 * M_PI; CHECK(near(v[0], 1 - 4 * w)); CHECK(near(v[1], 2 + 3 * w));''')
seed("c07-duplicate-shifts", "C07", [("LookupTable1D.h", "    if (!res_pair.second) { // Name already exists into the map\n", "    auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);\n    Ydata.push_back(Y_shared);\n\n    if (!res_pair.second) { // Name already exists into the map\n"), ("LookupTable1D.h", "      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);\n      Ydata.push_back(Y_shared);\n\n      // Building", "      // Building")],
     "a series refused because its name is used, followed by another new series", "the series added after a refused one cannot be evaluated (its index is off by one)",
     """  LookupTable1D<double, double> t(LINEAR); t.SetX({0, 1, 2}); CHECK(t.AddY("a", {1, 2, 3})); CHECK(!t.AddY("a", {7, 8, 9})); CHECK(t.AddY("b", {4, 5, 6}));
  CHECK(near(t.Eval("a", 0.5), 1.5)); double v = 0; try { v = t.Eval("b", 1.5); } catch (std::exception &) {} CHECK(near(v, 5.5));""")
seed("c08-copy-limits", "C08", [("RegularGridInterpolator.h", "      if (coord < m_limits[dim].first || coord > m_limits[dim].second) {", "      if (coord < m_limits[0].first || coord > m_limits[dim].second) {")],
     "bound checking on a grid whose axes start at different values", "a point below a later axis is accepted",
     '''  RegularGridInterpolator<double, 2> r; r.AddCoord({0, 1, 2}); r.AddCoord({5, 6}); boost::multi_array<double, 2> a(boost::extents[3][2]);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) a[i][j] = i + 10 * j; r.AddVar(a);
  CHECK(near(r.Interp({0.5, 5.5}, true), 5.5)); bool t = false; try { r.Interp({0.5, 4.}, true); } catch (std::exception &) { t = true; } CHECK(t);''', inc="MathUtils/MathUtilsBoost.h")
seed("c09-uniform-midpoint", "C09", [("RegularGridNearest.h", "        if (xi >= 0.5 * (coord[icell + 1] + coord[icell])) {", "        if (xi >= coord[icell] + 0.5 * (coord[1] - coord[0])) {")],
     "a grid with unequal spacing", "the nearest node is chosen with the first cell's half width",
     '''  RegularGridNearest<double, 1, double> r; r.AddCoord({0, 1, 5}); boost::multi_array<double, 1> a(boost::extents[3]); a[0] = 10; a[1] = 20; a[2] = 30; r.AddVar(a);
  CHECK(r.Nearest({0.6}).val() == 20); CHECK(r.Nearest({2.}).val() == 20); CHECK(r.Nearest({4.}).val() == 30);''', inc="MathUtils/MathUtilsBoost.h")
seed("c09-corner-order", "C09", [("RegularGridNearest.h", "      } else if (cell_index[i] >= coord.size() - 1) {\n        indices[i] = m_grid_list[i].size() - 1;", "      } else if (cell_index[i] >= coord.size() - 1) {\n        indices[i] = m_grid_list[_dim - 1].size() - 1;")],
     "a point beyond the last node of one axis of a grid with axes of different lengths", "the surrounding nodes use the last index of another axis",
     '''  RegularGridNearest<double, 2, double> r; r.AddCoord({0, 1, 2, 3}); r.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[4][2]);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) a[i][j] = i + 10 * j; r.AddVar(a);
  auto n = r.GetSurroundingGridNodes({9., 0.5}); CHECK(n.size() == 4); CHECK(n[0].val() == 3 && n[1].val() == 13);''', inc="MathUtils/MathUtilsBoost.h")
seed("c10-stale-result", "C10", [("Integration1d.h", "        void SetXmax(Scalar xmax) {\n            m_Xmax = xmax;\n            c_Computed = false;", "        void SetXmax(Scalar xmax) {\n            m_Xmax = xmax;\n            c_Computed = c_DataSource == VECTOR;")],
     "tabulated data, an upper bound changed after a result was read (or before the first one)", "the integral of the previous bounds is returned",
     '''  Integrate1d<double> q(std::vector<double>{1, 2, 3}, 0, 2, 3); CHECK(near(q.Get(), 4)); q.SetXmax(4); CHECK(near(q.Get(), 8));''')
seed("c11-weight", "C11", [("Integration2dTriangle.h", "      double area = 0.5 * ((e1.cross(e2))).norm();", "      double area = 0.5 * ((e1.cross(e2))).template lpNorm<1>();")],
     "a triangle whose plane is not perpendicular to an axis", "the area of a tilted triangle is wrong",
     '''  One f; Integration2dTriangle<double> q(&f, 2); Vector3d<double> a(1, 2, 0), b(3, 1, 1), c(0, 0, 0.5);
  Vector3d<double> n = (a - c).cross(b - c); CHECK(near(q.Compute(a, b, c), 0.5 * n.norm())); Vector3d<double> c0(0, 0, 0), b0(3, 1, 0); n = a.cross(b0); CHECK(near(q.Compute(a, b0, c0), 0.5 * n.norm()));''',
     top='''struct One : public Integrand<double> { double Evaluate(const Vector3d<double> &) const override { return 1.; } };\n''')
seed("c17-odd-half", "C17", [("FFT.h", "                n = n/2 + 1;", "                n = (n + 3)/2;")],
     "half-spectrum mode with an odd number of samples", "the axis has one frequency more than the transform",
     '''  FFT<double> f; f.HalfSpectrumON(); std::vector<double> x{1, 2, 0, 3, 1}, fr; std::vector<std::complex<double>> X; f.fft(X, fr, x, 10., HERTZ); CHECK(X.size() == fr.size());
  std::vector<double> y{1, 2, 0, 3}; f.fft(X, fr, y, 10., HERTZ); CHECK(X.size() == fr.size());''')
seed("c04-pitch-sqrt", "C04", [("Geometry.h", "                             sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)));", "                             std::copysign(sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)), R(2, 2)));")],
     "a roll beyond a quarter turn (negative lower right entry)", "the pitch read off the matrix lands beyond a quarter turn",
     '''  Eigen::Vector3d a(0.3, -0.4, 1.2), b(2.5, 0.4, -1.), c = rotationMatrixToEulerAnglesZYX(eulerAnglesZYXToRotationMatrix(a)), d = rotationMatrixToEulerAnglesZYX(eulerAnglesZYXToRotationMatrix(b));
  CHECK((a - c).norm() < 1e-9); CHECK((b - d).norm() < 1e-9);''')
seed("c06-row-stride", "C06", [("Interp2d.h", "        auto idata = iy + (ix-1)*(this->ny-1) - 1;", "        auto idata = iy + (ix-1)*(std::min(this->nx, this->ny)-1) - 1;")],
     "a grid with fewer x than y coordinates, a query beyond the first x cell", "the coefficients of another cell are used",
     '''  Interp2dLinear<double> f; auto x = std::make_shared<std::vector<double>>(std::vector<double>{0, 1, 2}); auto y = std::make_shared<std::vector<double>>(std::vector<double>{0, 1, 2, 3, 4}); auto d = std::make_shared<std::vector<double>>();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) d->push_back(i * i + 10 * j * j); f.Initialize(x, y, d); CHECK(near(f.Eval(0.5, 3.), 90.5)); CHECK(near(f.Eval(2., 3.), 94.));''')
seed("c16-negative-order", "C16", [("BoostFunctions.h", "(order / x) * boost::math::cyl_hankel_1(order, x);", "(order / x) * boost::math::cyl_hankel_1(order < 0 ? -order : order, x);")],
     "a negative odd (or fractional) order", "the second term of the derivative uses the function of the opposite order",
     '''  double x = 2.5, h = 1e-5; auto g = (Cyl_Hankel_first_kind(2, x + h) - Cyl_Hankel_first_kind(2, x - h)) / (2 * h); CHECK(std::abs(Cyl_Hankel_first_kind_derivative(2, x) - g) < 1e-6);
  g = (Cyl_Hankel_first_kind(-3, x + h) - Cyl_Hankel_first_kind(-3, x - h)) / (2 * h); CHECK(std::abs(Cyl_Hankel_first_kind_derivative(-3, x) - g) < 1e-6);''', inc="MathUtils/MathUtilsBoost.h")
seed("c18-relative-tolerance", "C18", [("Matrix.h", "            if (S(i) > tol) {", "            if (S(i) > tol * S(0)) {")],
     "a matrix whose singular values are far apart (the loop also overwrites the first one with its inverse)", "singular values above the tolerance are dropped, or ones below it inverted",
     '''  MatrixMN<double> a(2, 2); a << 1e-4, 0, 0, 1e-5; MatrixMN<double> x = a.GetPseudoInverse(); CHECK(near(x(0, 0), 1e4) && near(x(1, 1), 1e5));
  a << 2, 0, 0, 1; x = a.GetPseudoInverse(); CHECK(near(x(0, 0), 0.5) && near(x(1, 1), 1));''')
seed("c19-short-data", "C19", [("Spline.h", "                          std::min<int>(x_vec.rows() - 1, Deg),", "                          std::min<int>(x_vec.rows(), Deg),")],
     "as many points as the requested degree", "the spline of three points is not an interpolant",
     '''  std::vector<double> x{0, 1, 2, 3, 4}, y{1, 3, 2, 5, 4}; Spline<double, 1, 3> s(x, y); for (int i = 0; i < 5; i++) CHECK(near(s(x[i]), y[i]));
  std::vector<double> u{0, 1, 3}, v{1, 3, 2}; Spline<double, 1, 3> t(u, v); for (int i = 0; i < 3; i++) CHECK(near(t(u[i]), v[i]));''')
seed("c13-recompute", "C13", [("ChebyshevSeries3d.h", "            m_aijk.at(k)(i, j) = T(0.);\n", "            if (i == 0 or j == 0) m_aijk.at(k)(i, j) = T(0.);\n")],
     "coefficients computed a second time on the same object (after the function changed, say)", "the new coefficients are added to the old ones",
     '''  Prod f; ChebyshevSeries3dClosed<double> s(&f, -1, 1, -1, 1, -1, 1, 2, 2, 2); s.Compute_aijk(); CHECK(near(s.Evaluate(0.5, -0.3, 0.2), -0.03)); f.a = 2; s.Compute_aijk(); CHECK(near(s.Evaluate(0.5, -0.3, 0.2), -0.06));''',
     inc="MathUtils/MathUtilsBoost.h", top='''struct Prod : public Function3d<double> { double a = 1; double Evaluate(const double &x, const double &y, const double &z) const override { return a * x * y * z; } };\n''')
