// A small stand-in for the PLY library happly, which is not available here: reads and writes PLY files (ASCII, binary of both byte orders) with
// scalar and list properties. Same interface as far as geometry-central uses it, written from its documentation.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <istream>
#include <limits>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace happly {
enum class DataFormat { ASCII, Binary, BinaryBigEndian };

namespace detail {
enum Kind { I8, U8, I16, U16, I32, U32, F32, F64 };
inline const char* nameOf(Kind k) {
  static const char* n[] = {"char", "uchar", "short", "ushort", "int", "uint", "float", "double"};
  return n[k];
}
inline bool kindOf(const std::string& s, Kind& k) {
  static const char* a[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "float32", "float64"};
  for (int i = 0; i < 8; i++)
    if (s == nameOf((Kind)i) || s == a[i]) {
      k = (Kind)i;
      return true;
    }
  return false;
}
inline size_t width(Kind k) {
  static size_t w[] = {1, 1, 2, 2, 4, 4, 4, 8};
  return w[k];
}
template <class T>
struct KindOf {
  static Kind get() {
    static_assert(std::is_arithmetic<T>::value && !std::is_same<T, bool>::value, "type cannot be stored in a PLY file");
    if (std::is_floating_point<T>::value) return sizeof(T) == 4 ? F32 : F64;
    if (std::is_signed<T>::value) return sizeof(T) == 1 ? I8 : sizeof(T) == 2 ? I16 : I32;
    return sizeof(T) == 1 ? U8 : sizeof(T) == 2 ? U16 : U32;
  }
};
// one value of any kind
struct Cell {
  Kind k;
  double d;
  int64_t i;
  template <class T>
  static Cell of(T x) {
    return Cell{KindOf<T>::get(), (double)x, (int64_t)x};
  }
  template <class T>
  T as() const {
    return std::is_floating_point<T>::value ? (T)d : (T)i;
  }
};
// may a stored kind be read as another: itself, or a narrower one of the same sort
inline bool readable(Kind stored, Kind wanted) {
  if (stored == wanted) return true;
  auto sort = [](Kind k) { return k >= F32 ? 2 : k % 2; };
  return sort(stored) == sort(wanted) && width(stored) < width(wanted);
}
inline void put(std::ostream& o, const Cell& c, DataFormat f) {
  if (f == DataFormat::ASCII) {
    std::ostringstream s;
    s.precision(c.k == F32 ? std::numeric_limits<float>::max_digits10 : std::numeric_limits<double>::max_digits10);
    if (c.k == F32)
      s << (float)c.d;
    else if (c.k == F64)
      s << c.d;
    else
      s << c.i;
    o << s.str();
    return;
  }
  unsigned char b[8];
  size_t w = width(c.k);
  uint64_t u = 0;
  if (c.k == F32) {
    float x = (float)c.d;
    uint32_t y;
    memcpy(&y, &x, 4);
    u = y;
  } else if (c.k == F64)
    memcpy(&u, &c.d, 8);
  else
    u = (uint64_t)c.i;
  for (size_t k = 0; k < w; k++) b[f == DataFormat::Binary ? k : w - 1 - k] = (unsigned char)(u >> (8 * k));
  o.write((const char*)b, (std::streamsize)w);
}
inline Cell get(std::istream& in, Kind k, DataFormat f) {
  Cell c{k, 0, 0};
  if (f == DataFormat::ASCII) {
    std::string t;
    if (!(in >> t)) throw std::runtime_error("PLY parser: file ends early");
    if (k >= F32)
      c.d = k == F32 ? (double)strtof(t.c_str(), nullptr) : strtod(t.c_str(), nullptr), c.i = 0;
    else
      c.i = strtoll(t.c_str(), nullptr, 10), c.d = (double)c.i;
    return c;
  }
  unsigned char b[8];
  size_t w = width(k);
  in.read((char*)b, (std::streamsize)w);
  if ((size_t)in.gcount() != w) throw std::runtime_error("PLY parser: file ends early");
  uint64_t u = 0;
  for (size_t j = 0; j < w; j++) u |= (uint64_t)b[f == DataFormat::Binary ? j : w - 1 - j] << (8 * j);
  switch (k) {
  case F32: {
    uint32_t y = (uint32_t)u;
    float x;
    memcpy(&x, &y, 4);
    c.d = x;
    return c;
  }
  case F64: memcpy(&c.d, &u, 8); return c;
  case I8: c.i = (int8_t)u; break;
  case I16: c.i = (int16_t)u; break;
  case I32: c.i = (int32_t)u; break;
  default: c.i = (int64_t)u;
  }
  c.d = (double)c.i;
  return c;
}
struct Prop {
  std::string name;
  Kind k;
  bool list;
  std::vector<std::vector<Cell>> v;
};
} // namespace detail

class Element {
public:
  std::string name;
  size_t count;
  std::vector<detail::Prop> properties;
  Element(const std::string& n, size_t c) : name(n), count(c) {}
  bool hasProperty(const std::string& n) const {
    for (auto& p : properties)
      if (p.name == n) return true;
    return false;
  }
  template <class T>
  bool hasPropertyType(const std::string& n) const {
    for (auto& p : properties)
      if (p.name == n) return p.k == detail::KindOf<T>::get();
    return false;
  }
  std::vector<std::string> getPropertyNames() const {
    std::vector<std::string> r;
    for (auto& p : properties) r.push_back(p.name);
    return r;
  }
  template <class T>
  void addProperty(const std::string& n, const std::vector<T>& data) {
    if (data.size() != count) throw std::runtime_error("PLY write: new property " + n + " has size which does not match element");
    drop(n);
    detail::Prop p{n, detail::KindOf<T>::get(), false, {}};
    for (T x : data) p.v.push_back({detail::Cell::of(x)});
    properties.push_back(p);
  }
  template <class T>
  void addListProperty(const std::string& n, const std::vector<std::vector<T>>& data) {
    if (data.size() != count) throw std::runtime_error("PLY write: new property " + n + " has size which does not match element");
    drop(n);
    detail::Prop p{n, detail::KindOf<T>::get(), true, {}};
    for (auto& x : data) {
      std::vector<detail::Cell> c;
      for (T y : x) c.push_back(detail::Cell::of(y));
      p.v.push_back(c);
    }
    properties.push_back(p);
  }
  template <class T>
  std::vector<T> getProperty(const std::string& n) {
    const detail::Prop& p = find(n);
    if (p.list || !detail::readable(p.k, detail::KindOf<T>::get()))
      throw std::runtime_error("PLY parser: property " + n + " cannot be coerced to requested type");
    std::vector<T> r;
    for (auto& c : p.v) r.push_back(c[0].as<T>());
    return r;
  }
  template <class T>
  std::vector<std::vector<T>> getListProperty(const std::string& n) {
    const detail::Prop& p = find(n);
    if (!p.list || !detail::readable(p.k, detail::KindOf<T>::get()))
      throw std::runtime_error("PLY parser: list property " + n + " cannot be coerced to requested type");
    return lists<T>(p);
  }
  template <class T>
  std::vector<std::vector<T>> getListPropertyAnySign(const std::string& n) {
    const detail::Prop& p = find(n);
    if (!p.list || p.k >= detail::F32) throw std::runtime_error("PLY parser: list property " + n + " cannot be coerced to requested type");
    return lists<T>(p);
  }

private:
  template <class T>
  static std::vector<std::vector<T>> lists(const detail::Prop& p) {
    std::vector<std::vector<T>> r;
    for (auto& c : p.v) {
      r.push_back({});
      for (auto& x : c) r.back().push_back(x.as<T>());
    }
    return r;
  }
  const detail::Prop& find(const std::string& n) const {
    for (auto& p : properties)
      if (p.name == n) return p;
    throw std::runtime_error("PLY parser: element " + name + " does not have property " + n);
  }
  void drop(const std::string& n) {
    for (size_t i = 0; i < properties.size(); i++)
      if (properties[i].name == n) {
        properties.erase(properties.begin() + (long)i);
        return;
      }
  }
};

class PLYData {
public:
  std::vector<std::string> comments, objInfoComments;
  PLYData() {}
  PLYData(const std::string& filename, bool = false) {
    std::ifstream in(filename, std::ios::binary);
    if (in.fail()) throw std::runtime_error("PLY parser: Could not open file " + filename);
    parse(in);
  }
  PLYData(std::istream& in, bool = false) {
    if (in.fail()) throw std::runtime_error("PLY parser: Could not read from stream");
    parse(in);
  }
  void validate() {
    for (size_t i = 0; i < elements.size(); i++) {
      if (bad(elements[i].name)) throw std::runtime_error("Ply validate: illegal element name");
      for (size_t j = 0; j < i; j++)
        if (elements[i].name == elements[j].name) throw std::runtime_error("Ply validate: duplicate element name");
      for (size_t a = 0; a < elements[i].properties.size(); a++) {
        auto& p = elements[i].properties[a];
        if (bad(p.name)) throw std::runtime_error("Ply validate: illegal property name");
        for (size_t b = 0; b < a; b++)
          if (elements[i].properties[b].name == p.name) throw std::runtime_error("Ply validate: duplicate property name");
        if (p.v.size() != elements[i].count) throw std::runtime_error("Ply validate: property has wrong size");
      }
    }
  }
  void write(const std::string& filename, DataFormat f = DataFormat::ASCII) {
    validate();
    std::ofstream o(filename, std::ios::out | std::ios::binary);
    if (!o.good()) throw std::runtime_error("Ply writer: Could not open output file " + filename + " for writing");
    emit(o, f);
  }
  void write(std::ostream& o, DataFormat f = DataFormat::ASCII) {
    validate();
    emit(o, f);
  }
  Element& getElement(const std::string& n) {
    for (auto& e : elements)
      if (e->name == n) return *e;
    throw std::runtime_error("PLY parser: no element with name: " + n);
  }
  bool hasElement(const std::string& n) {
    for (auto& e : elements)
      if (e->name == n) return true;
    return false;
  }
  std::vector<std::string> getElementNames() {
    std::vector<std::string> r;
    for (auto& e : elements) r.push_back(e->name);
    return r;
  }
  void addElement(const std::string& n, size_t count) { elements.push_back(Ptr(new Element(n, count))); }

  // common meshes
  std::vector<std::array<double, 3>> getVertexPositions(const std::string& el = "vertex") {
    auto x = getElement(el).getProperty<double>("x"), y = getElement(el).getProperty<double>("y"), z = getElement(el).getProperty<double>("z");
    std::vector<std::array<double, 3>> r(x.size());
    for (size_t i = 0; i < x.size(); i++) r[i] = {{x[i], y[i], z[i]}};
    return r;
  }
  template <class T = size_t>
  std::vector<std::vector<T>> getFaceIndices() {
    for (const char* f : {"face"})
      for (const char* p : {"vertex_indices", "vertex_index"})
        if (hasElement(f) && getElement(f).hasProperty(p)) return getElement(f).getListPropertyAnySign<T>(p);
    throw std::runtime_error("PLY parser: could not find face vertex indices attribute under any common name.");
  }
  void addVertexPositions(std::vector<std::array<double, 3>>& v) {
    if (!hasElement("vertex")) addElement("vertex", v.size());
    const char* n[] = {"x", "y", "z"};
    for (int c = 0; c < 3; c++) {
      std::vector<double> d;
      for (auto& p : v) d.push_back(p[c]);
      getElement("vertex").addProperty<double>(n[c], d);
    }
  }
  template <class T>
  void addFaceIndices(std::vector<std::vector<T>>& ind) {
    if (!hasElement("face")) addElement("face", ind.size());
    std::vector<std::vector<uint32_t>> d;
    for (auto& f : ind) {
      d.push_back({});
      for (T i : f) {
        if ((uint64_t)i > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Index value outside of range");
        d.back().push_back((uint32_t)i);
      }
    }
    getElement("face").addListProperty<uint32_t>("vertex_indices", d);
  }

private:
  struct Ptr { // elements keep their place while others are added
    std::unique_ptr<Element> e;
    explicit Ptr(Element* x) : e(x), name(x->name), count(x->count), properties(x->properties) {}
    Element* operator->() const { return e.get(); }
    Element& operator*() const { return *e; }
    std::string& name;
    size_t& count;
    std::vector<detail::Prop>& properties;
  };
  std::vector<Ptr> elements;
  static bool bad(const std::string& s) { return s.empty() || s.find_first_of(" \t\n\r") != std::string::npos; }

  void emit(std::ostream& o, DataFormat f) {
    o << "ply\nformat " << (f == DataFormat::ASCII ? "ascii" : f == DataFormat::Binary ? "binary_little_endian" : "binary_big_endian") << " 1.0\n";
    for (auto& c : comments) o << "comment " << c << "\n";
    for (auto& e : elements) {
      o << "element " << e->name << " " << e->count << "\n";
      for (auto& p : e->properties) o << "property " << (p.list ? "list uchar " : "") << detail::nameOf(p.k) << " " << p.name << "\n";
    }
    o << "end_header\n";
    for (auto& e : elements)
      for (size_t i = 0; i < e->count; i++) {
        bool first = true;
        auto one = [&](const detail::Cell& c) {
          if (f == DataFormat::ASCII && !first) o << " ";
          first = false;
          detail::put(o, c, f);
        };
        for (auto& p : e->properties) {
          if (p.list) {
            if (p.v[i].size() > 255) throw std::runtime_error("List property has an element with more entries than fit in a uchar.");
            one(detail::Cell::of((uint8_t)p.v[i].size()));
          }
          for (auto& c : p.v[i]) one(c);
        }
        if (f == DataFormat::ASCII) o << "\n";
      }
  }
  static std::string line(std::istream& in) {
    std::string s;
    if (!std::getline(in, s)) throw std::runtime_error("PLY parser: file ends early");
    while (!s.empty() && (s.back() == '\r' || s.back() == ' ')) s.pop_back();
    return s;
  }
  void parse(std::istream& in) {
    if (line(in) != "ply") throw std::runtime_error("PLY parser: File does not appear to be ply file. First line should be 'ply'");
    struct Head {
      size_t e;
      detail::Prop p;
      detail::Kind size;
    };
    std::vector<Head> H;
    DataFormat f = DataFormat::ASCII;
    bool haveFormat = false;
    while (true) {
      std::istringstream s(line(in));
      std::string w, a, b;
      s >> w;
      if (w == "end_header") break;
      if (w == "comment") {
        std::string c;
        std::getline(s, c);
        comments.push_back(c.empty() ? c : c.substr(1));
      } else if (w == "format") {
        s >> a;
        f = a == "ascii" ? DataFormat::ASCII : a == "binary_little_endian" ? DataFormat::Binary : DataFormat::BinaryBigEndian;
        haveFormat = true;
      } else if (w == "element") {
        size_t n = 0;
        s >> a >> n;
        addElement(a, n);
      } else if (w == "property") {
        if (elements.empty()) throw std::runtime_error("PLY parser: Found property without previous element");
        Head h{elements.size() - 1, {}, detail::U8};
        s >> a;
        h.p.list = a == "list";
        if (h.p.list) {
          s >> b;
          if (!detail::kindOf(b, h.size)) throw std::runtime_error("PLY parser: Unrecognized list count type");
          s >> a;
        }
        if (!detail::kindOf(a, h.p.k)) throw std::runtime_error("PLY parser: Data type: " + a + " not recognized");
        s >> h.p.name;
        H.push_back(h);
      } else if (!w.empty() && w != "obj_info")
        throw std::runtime_error("PLY parser: Unrecognized header line");
    }
    if (!haveFormat) throw std::runtime_error("PLY parser: no format");
    for (auto& h : H) elements[h.e]->properties.push_back(h.p);
    size_t at = 0;
    for (auto& e : elements) {
      size_t np = e->properties.size();
      for (size_t i = 0; i < e->count; i++)
        for (size_t j = 0; j < np; j++) {
          auto& p = e->properties[j];
          size_t n = 1;
          if (p.list) n = (size_t)detail::get(in, H[at + j].size, f).i;
          std::vector<detail::Cell> c;
          for (size_t k = 0; k < n; k++) c.push_back(detail::get(in, p.k, f));
          p.v.push_back(c);
        }
      at += np;
    }
  }
};
} // namespace happly
