// A SAM object built directly from random data, next to plain reference data of the same model.
#ifndef HSAM_H_
#define HSAM_H_
#include "SAM.h"
#include "MatVec.h"
#include "vf.h"

typedef std::vector<std::vector<double>> RMat;
inline RMat rmat(size_t m, size_t n) { return RMat(m,std::vector<double>(n,0.0)); }

struct HOpt { int maxNodes = 9, maxElms = 6; bool constraints = true, negNodes = false, msc2 = true, types = false, ext = false, fixed = true, single = false, cover = false; };

class HSAM : public SAM
{
public:
  struct Ceq { int slave; double c0; std::vector<std::pair<int,double>> m; }; //!< 0-based DOFs
  std::vector<int> nndof;               //!< DOFs per node
  std::vector<int> first;               //!< First DOF (0-based) per node
  std::vector<std::vector<int>> elm;    //!< 1-based nodes of the elements (negative: not connected)
  std::vector<int> status;              //!< 0 suppressed, 1, 2
  std::vector<Ceq> ceq;
  std::vector<int> ext;
  std::string types, dtypes;
  bool ok = false;
  int nd = 0;

  void build(vf::Ctx& c, const HOpt& o)
  {
    auto& r = c.rng;
    nnod = o.single ? r.i(1,2) : r.i(1,o.maxNodes);
    nel = r.i(1,o.maxElms);
    int mode = r.i(0,3), fix = r.i(1,3);
    for (int n = 0; n < nnod; n++) {
      first.push_back(nd);
      nndof.push_back(mode == 0 ? r.i(1,6) : mode == 1 ? (n%2 ? fix : fix+1) : fix);
      nd += nndof.back();
    }
    ndof = nd;
    madof = new int[nnod+1];
    for (int n = 0; n < nnod; n++) madof[n] = first[n]+1;
    madof[nnod] = nd+1;
    status.assign(nd,1);
    double pf = o.fixed ? r.r(0.0,0.4) : 0.0, p2 = o.msc2 ? r.pick({0.0,0.0,0.3}) : 0.0;
    for (int d = 0; d < nd; d++) status[d] = r.p(pf) ? 0 : r.p(p2) ? 2 : 1;
    if (o.constraints) {
      std::vector<int> dofs; for (int d = 0; d < nd; d++) dofs.push_back(d);
      r.shuffle(dofs);
      int nc = r.i(0,std::max(0,nd/2));
      for (int k = 0; k < nc; k++) status[dofs[k]] = 0;
      std::vector<int> free; for (int d = 0; d < nd; d++) if (status[d]) free.push_back(d);
      for (int k = 0; k < nc; k++) {
        Ceq q; q.slave = dofs[k]; q.c0 = r.p(0.4) ? 0.0 : r.v();
        int nm = free.empty() || r.p(0.35) ? 0 : r.i(1,4);
        std::vector<int> f = free; r.shuffle(f);
        for (int m = 0; m < nm && m < (int)f.size(); m++) q.m.push_back({f[m],r.p(0.1) ? 1.0 : r.v()});
        ceq.push_back(q);
      }
    }
    msc = new int[nd];
    for (int d = 0; d < nd; d++) msc[d] = status[d];
    nceq = ceq.size();
    nmmceq = 0;
    for (auto& q : ceq) nmmceq += 1 + q.m.size();
    mpmceq = new int[nceq+1];
    mmceq = new int[nmmceq+1];
    ttcc = new Real[nmmceq+1];
    int ip = 0;
    for (int k = 0; k < nceq; k++) {
      mpmceq[k] = ip+1;
      mmceq[ip] = ceq[k].slave+1; ttcc[ip++] = ceq[k].c0;
      for (auto& m : ceq[k].m) { mmceq[ip] = m.first+1; ttcc[ip++] = m.second; }
    }
    mpmceq[nceq] = ip+1;
    for (int e = 0; e < nel; e++) {
      std::vector<int> nodes; for (int n = 1; n <= nnod; n++) nodes.push_back(n);
      r.shuffle(nodes);
      nodes.resize(r.p(0.06) ? 0 : r.i(1,std::min((int)nnod,4)));
      if (o.negNodes) for (int& n : nodes) if (r.p(0.15)) n = -n;
      elm.push_back(nodes);
    }
    if (o.cover) { // let all nodes be connected to some element
      std::vector<bool> used(nnod,false);
      for (auto& e : elm) for (int n : e) used[std::abs(n)-1] = true;
      for (int n = 1; n <= nnod; n++) if (!used[n-1]) elm.back().push_back(n);
    }
    mpmnpc = new int[nel+1];
    nmmnpc = 0;
    for (auto& e : elm) nmmnpc += e.size();
    mmnpc = new int[nmmnpc+1];
    int jp = 0;
    for (int e = 0; e < nel; e++) { mpmnpc[e] = jp+1; for (int n : elm[e]) mmnpc[jp++] = n; }
    mpmnpc[nel] = jp+1;
    if (o.ext && r.p(0.5)) {
      minex = new int[nnod];
      int x = r.i(1,20);
      for (int n = 0; n < nnod; n++) { minex[n] = x; ext.push_back(x); x += r.i(1,5); }
    }
    if (o.types) {
      if (r.p(0.5)) for (int n = 0; n < nnod; n++) types += r.pick({'D','P','X'});
      nodeType.assign(types.begin(),types.end());
      if (r.p(0.4)) for (int d = 0; d < nd; d++) dtypes += r.pick({'D','P','R'});
      dof_type.assign(dtypes.begin(),dtypes.end());
    }
    for (int n : nndof) c.d(n);
    c.dv(status); for (auto& e : elm) c.dv(e);
    for (auto& q : ceq) { c.d(q.slave); c.d(q.c0); for (auto& m : q.m) { c.d(m.first); c.d(m.second); } }
    c.desc(vf::fmt("%d nodes %d dofs %d elements %d constraints status ",nnod,nd,nel,nceq)+vf::str(status,16));
    ok = this->initSystemEquations();
  }

  //! Removes the constants of all constraint equations
  void clearPresc() { for (int k = 0; k < nceq; k++) { ceq[k].c0 = 0.0; ttcc[mpmceq[k]-1] = 0.0; } }
  //! Assigns the constant of the constraint equation of the given (0-based) slave DOF
  void setPresc(int slave, double val)
  {
    for (int k = 0; k < nceq; k++) if (mmceq[mpmceq[k]-1] == slave+1) { ceq[k].c0 = val; ttcc[mpmceq[k]-1] = val; }
  }

  const int* MEQN() const { return meqn; }
  const int* MSC() const { return msc; }
  int nspec() const { return nspdof; }

  //! The reference transformation: DOF d = sum T[d][eq-1]*x[eq] + g[d], from status and constraints only
  void reference(std::vector<int>& eqn, RMat& T, std::vector<double>& g) const
  {
    eqn.assign(nd,0);
    int k = 0;
    for (int s = 1; s <= 2; s++) for (int d = 0; d < nd; d++) if (status[d] == s) eqn[d] = ++k;
    T = rmat(nd,k); g.assign(nd,0.0);
    for (int d = 0; d < nd; d++) if (eqn[d]) T[d][eqn[d]-1] = 1.0;
    for (auto& q : ceq) {
      g[q.slave] = q.c0;
      for (auto& m : q.m) T[q.slave][eqn[m.first]-1] += m.second;
    }
  }
  //! 0-based DOFs of an element (-1: unconnected)
  std::vector<int> edofs(int e) const
  {
    std::vector<int> d;
    for (int n : elm[e]) for (int k = 0; k < nndof[std::abs(n)-1]; k++) d.push_back(n > 0 ? first[n-1]+k : -1);
    return d;
  }
};

inline Matrix rndMatrix(vf::Ctx& c, size_t m, size_t n, int symm = 0)
{
  Matrix A(m,n);
  for (size_t i = 1; i <= m; i++) for (size_t j = 1; j <= n; j++) A(i,j) = symm && j < i ? A(j,i) : c.rng.v();
  return A;
}
#endif
