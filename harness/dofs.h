// Independent description of dof numberings.
#pragma once
#include "meshes.h"
#include <lf/assemble/assemble.h>
namespace harness {
using lf::assemble::DofHandler;
typedef std::vector<U> Idx;
inline Idx vec(std::span<const lf::assemble::gdof_idx_t> s) { return Idx(s.begin(), s.end()); }
// interior: number of dofs expected per entity
template <class F> void checkDofs(const DofHandler& dh, const lf::mesh::Mesh& m, F&& interior, bool orient) {
  lfs_assert(dh.Mesh().get() == &m, "mesh of the dof handler");
  const U N = dh.NumDofs();
  U total = 0;
  std::vector<int> owner(N, 0);
  for (U c = 0; c < 3; c++)
    for (auto* e : m.Entities(c)) {
      U n = interior(*e);
      total += n;
      lfs_assert(dh.NumInteriorDofs(*e) == n, "number of interior dofs of an entity");
      Idx in = vec(dh.InteriorGlobalDofIndices(*e));
      lfs_assert(in.size() == n, "length of the list of interior indices");
      for (U i : in) {
        lfs_assert(i < N, "global indices are smaller than the number of dofs");
        owner[i]++;
        lfs_assert(&dh.Entity(i) == e, "an interior index is mapped back to its entity");
      }
    }
  lfs_assert(total == N, "number of dofs is the sum of the interior dofs of all entities");
  for (U i = 0; i < N; i++) lfs_assert(owner[i] == 1, "every index is interior to exactly one entity");
  for (U c = 0; c < 3; c++)
    for (auto* e : m.Entities(c)) {
      Idx want;
      auto app = [&](const lf::mesh::Entity& s, bool rev) {
        Idx in = vec(dh.InteriorGlobalDofIndices(s));
        if (rev) std::reverse(in.begin(), in.end());
        want.insert(want.end(), in.begin(), in.end());
      };
      if (c < 2) for (auto* s : e->SubEntities(2 - c)) app(*s, false);
      if (c == 0) {
        auto ori = e->RelativeOrientations();
        auto ed = e->SubEntities(1);
        for (size_t j = 0; j < ed.size(); j++) app(*ed[j], orient && ori[j] == lf::mesh::Orientation::negative);
      }
      app(*e, false);
      lfs_assert(dh.NumLocalDofs(*e) == want.size(), "number of dofs covering an entity");
      lfs_assert(vec(dh.GlobalDofIndices(*e)) == want, "indices of an entity: vertices, then edges, then interior, in canonical order");
    }
}
}  // namespace harness
