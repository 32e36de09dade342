// comparison of two values field by field (native replay only; overloads for the library classes are generated)
inline void vcCmp(const std::string& n, const double& a, const double& b) { vcEnsureEq(n.c_str(), a, b); }
inline void vcCmp(const std::string& n, const int& a, const int& b) { vcEnsureEqI(n.c_str(), a, b); }
inline void vcCmp(const std::string& n, const unsigned& a, const unsigned& b) { vcEnsureEqI(n.c_str(), a, b); }
inline void vcCmp(const std::string& n, const long& a, const long& b) { vcEnsureEqI(n.c_str(), a, b); }
inline void vcCmp(const std::string& n, const unsigned long& a, const unsigned long& b) { vcEnsureEqI(n.c_str(), a, b); }
inline void vcCmp(const std::string& n, const bool& a, const bool& b)
{ vcEnsureEqI(n.c_str(), *(const unsigned char*)&a, *(const unsigned char*)&b); }
template <typename T> void vcCmp(const std::string& n, const T* const& a, const T* const& b) {}
template <typename E> typename std::enable_if<std::is_enum<E>::value>::type vcCmp(const std::string& n, const E& a, const E& b)
{ vcEnsureEqI(n.c_str(), long(a), long(b)); }
template <typename S, int R, int C, int O, int MR, int MC>
void vcCmp(const std::string& n, const Eigen::Matrix<S, R, C, O, MR, MC>& a, const Eigen::Matrix<S, R, C, O, MR, MC>& b)
{ vcSameMat(n.c_str(), a, b); }
template <typename T, typename A> void vcCmp(const std::string& n, const std::vector<T, A>& a, const std::vector<T, A>& b)
{
  vcEnsureEqI((n + ".size").c_str(), a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) vcCmp(n + "[i]", a[i], b[i]);
}
template <typename T, typename A> void vcCmp(const std::string& n, const boost::circular_buffer<T, A>& a, const boost::circular_buffer<T, A>& b)
{
  vcEnsureEqI((n + ".size").c_str(), a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) vcCmp(n + "[i]", a[i], b[i]);
}
template <typename T> void vcCmp(const std::string& n, const boost::scoped_ptr<T>& a, const boost::scoped_ptr<T>& b) {}
template <typename T> void vcCmp(const std::string& n, const boost::ptr_vector<T>& a, const boost::ptr_vector<T>& b)
{ vcEnsureEqI((n + ".size").c_str(), a.size(), b.size()); }
template <typename T> void vcSame(const char* name, const T& a, const T& b) { vcCmp(name, a, b); }
template <typename T> void vcSameState(const char* name, const T& a, const T& b) {}
template <> inline ConvexPolygon<double> vcAny<ConvexPolygon<double> >(const char* name)
{
  int n = vcInt("vertices", 3, 6);
  V2 c = vcVec2("centre");
  VV2 p;
  for (int i = 0; i < n; ++i)
  {
    double a = 6.283185307179586*(i + 0.8*vcu())/n;
    p.push_back(c + V2(0.1*int(10*std::cos(a)), 0.1*int(10*std::sin(a))));
    vclog("x", p[i](0)); vclog("y", p[i](1));
  }
  return ConvexPolygon<double>(ConvexPolygon<double>::extractVertices(p));
}
