// Small polygon meshes used as starting points.
#pragma once
#include "vt.h"
namespace vt {
typedef std::vector<std::vector<size_t>> Polys;

inline Polys gridPolys(int nx, int ny, bool wrapX, bool wrapY, int style) {
  // style 0: quads, 1: triangles, 2: alternating diagonal
  Polys P;
  int vx = wrapX ? nx : nx + 1, vy = wrapY ? ny : ny + 1;
  auto id = [&](int i, int j) { return (size_t)((j % vy) * vx + (i % vx)); };
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      if (style == 0)
        P.push_back({a, b, c, d});
      else if (style == 1 || (i + j) % 2 == 0) {
        P.push_back({a, b, c});
        P.push_back({a, c, d});
      } else {
        P.push_back({a, b, d});
        P.push_back({b, c, d});
      }
    }
  return P;
}

inline std::vector<std::pair<std::string, Polys>> seedMeshes() {
  std::vector<std::pair<std::string, Polys>> S;
  S.push_back({"tet", {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}});
  S.push_back({"tri", {{0, 1, 2}}});
  S.push_back({"quadtri", {{0, 1, 2}, {0, 2, 3}}});
  S.push_back({"fan4", {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}}});
  S.push_back({"fan6", {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 5, 6}, {0, 6, 1}}});
  S.push_back({"oct", {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}});
  S.push_back({"cube", {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}});
  S.push_back({"prism", {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}});
  S.push_back({"pillow", {{0, 1, 2}, {0, 2, 1}}});
  S.push_back({"penta", {{0, 1, 2, 3, 4}}});
  S.push_back({"strip", {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}, {4, 3, 5}}});
  S.push_back({"annulus", gridPolys(3, 1, true, false, 1)});
  S.push_back({"annulus4q", gridPolys(4, 1, true, false, 0)});
  S.push_back({"tube", gridPolys(3, 2, true, false, 1)});
  S.push_back({"torus", gridPolys(3, 3, true, true, 1)});
  S.push_back({"torusq", gridPolys(3, 3, true, true, 0)});
  S.push_back({"grid2", gridPolys(2, 2, false, false, 2)});
  S.push_back({"grid3q", gridPolys(3, 2, false, false, 0)});
  S.push_back({"two", {{0, 1, 2}, {0, 2, 3}, {4, 6, 5}, {4, 5, 7}, {5, 6, 7}, {6, 4, 7}}});
  S.push_back({"twodisk", {{0, 1, 2}, {3, 4, 5, 6}}});
  S.push_back({"mixed", {{0, 1, 4, 3}, {1, 2, 4}, {2, 5, 4}, {3, 4, 5, 6}}});
  // a sphere with three holes
  {
    Polys P = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    Polys Q;
    size_t n = 8;
    for (size_t f = 0; f < P.size(); f++) {
      if (f % 2 == 0) {
        // ring inside the quad, leaving a triangular hole in the middle
        auto q = P[f];
        size_t a = n, b = n + 1, c = n + 2;
        n += 3;
        Q.push_back({q[0], q[1], b, a});
        Q.push_back({q[1], q[2], c, b});
        Q.push_back({q[2], q[3], c});
        Q.push_back({q[3], q[0], a, c});
      } else
        Q.push_back(P[f]);
    }
    S.push_back({"pants", Q});
  }
  return S;
}

// gluing tables: per face, per side, (face, side) of the twin
typedef std::vector<std::vector<std::tuple<size_t, size_t>>> Glue;
} // namespace vt
