// What is claimed of each function: the accuracy in its name, over the domain
// documented for the implementation (https://sleef.org/purec.xhtml, to which
// the documentation of every operator refers).
struct Spec { double ulp, tiny, abs; bool zsign, tail; };
static Spec spec(const std::string &op, int type) {
  Spec s = {3.5, 0, 0, true, false};
  std::string b = op.substr(0, op.find('_'));
  size_t u = op.rfind("_u");
  if (u == std::string::npos) s.ulp = 0; // fmod, remainder: exact
  else s.ulp = atoi(op.c_str() + u + 2) / 10.0 + 0.001;
  if (b == "sinpi" || b == "cospi") s.ulp = 0.51;
  if (b == "hypot" && op == "hypot_u05") s.ulp = 0.502;
  if (type == 0) s.ulp = s.ulp == 0 ? 0 : 0.502; // computed in single precision, then rounded once
  // results close to the subnormal range (smallest normal number times 2^16):
  // the compensation terms underflow
  if (b == "atan2" || b == "erf" || b == "erfc") s.tiny = 2;
  if (b == "sinpi" || b == "cospi" || op == "hypot_u05") s.tiny = 2;
  // known finding: gamma of arguments that bring the result near underflow
  if (b == "tgamma" && type) s.tail = true;
  if (b == "lgamma") s.abs = type == 1 ? 1e-8 : 1e-15;
  if (b == "sinpi" || b == "tgamma") s.zsign = false;
  return s;
}
template <typename F> bool claimed(const Spec &, const std::string &b, int type, F x, F y) {
  F a = std::fabs(x), inf = std::numeric_limits<F>::infinity();
  if (a == inf || x != x) {
    // limits at infinity; NaN in, NaN out
    return true;
  }
  if (type == 0) return true;
  bool s = type == 1;
  if (b == "sinpi" || b == "cospi") return a <= (F)(s ? 1e7 / 4 : 1e9 / 4);
  if (b == "asinh" || b == "acosh") return a <= (F)(s ? 1.84e19 : 1.34e154);
  if (b == "sinh" || b == "cosh") return a <= (F)(s ? 88.0 : 709.0);
  if (b == "lgamma") return x <= (F)(s ? 4e36 : 2e305);
  if (b == "log1p") return x <= (F)(s ? 1e38 : 1e307);
  if (b == "fmod" || b == "remainder") {
    F c = std::fabs(y);
    return !(c > 0 && c < inf) || a / c <= (F)(s ? 1e38 : 1e300);
  }
  return true;
}
