// A simulator of one or more structured Lagrange patches (HPatch) on the library's generic simulator class:
// preprocessing, numbering, equation solution, norms and projections are the library's own.
#ifndef HSIM_H_
#define HSIM_H_
#include "hpatch.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "SAM.h"
#include "AlgEqSystem.h"
#include "IntegrandBase.h"
#include "ASMs2DC1.h"

// This class needs GoTools and is left out of the build. It has no patches here, so there is nothing to renumber.
void ASMs2DC1::renumberNodes(const std::map<int,int>&) {}

class HSim : public SIMdummy<SIMgeneric>
{
public:
  int dim;
  HSim(IntegrandBase* itg, int d, int sdim = 0) : SIMdummy<SIMgeneric>(itg), dim(d) { nsd = sdim ? sdim : d; }
  using SIMbase::myModel; using SIMbase::mySam; using SIMbase::myEqSys; using SIMbase::myProblem; using SIMbase::myProps; using SIMbase::mySol; using SIMbase::nGlPatches;
  using SIMbase::extractPatchSolution; using SIMbase::injectPatchSolution; using SIMbase::myScalars; using SIMbase::myVectors; using SIMbase::myTracs; using SIMbase::myInts; using SIMbase::extrFunc; using SIMbase::myGlb2Loc;
  unsigned short int getNoParamDim() const override { return dim; }
  bool createFEMmodel(char c) override { return this->SIMinput::createFEMmodel(c); }
  HPatch* patch(size_t i) const { return static_cast<HPatch*>(myModel[i]); }
  void add(HPatch* p) { p->idx = myModel.size(); myModel.push_back(p); nGlPatches = myModel.size(); }
  bool addConstraint(int patch, int lndx, int ldim, int dirs, int code, int& ngnod, char basis, bool ovr = false) override
  {
    if (ldim == dim || ldim == 4) return this->SIMbase::addConstraint(patch,lndx,ldim,dirs,code,ngnod,basis,ovr);
    if (patch < 1 || patch > (int)myModel.size()) return false;
    HPatch* p = this->patch(patch-1);
    for (int n : p->bou(lndx)) if (code == 0) p->fix(n+1,dirs); else p->prescribe(n+1,dirs,code);
    return true;
  }
  std::vector<std::vector<int>> getElmConnectivities() const override { IntMat m(mySam ? mySam->getNoElms() : 0); for (auto p : myModel) { IntMat nb; p->getElmConnectivities(nb); for (size_t e = 0; e < nb.size(); e++) if (p->getElmID(e+1)-1 < (int)m.size() && p->getElmID(e+1) > 0) m[p->getElmID(e+1)-1] = nb[e]; } return m; }
};

//! \brief Adds a random chain of patches in first direction with matching (or separated) faces.
inline void hpatches(vf::Ctx& c, HSim& s, int np, int nf, int p = 1, double amp = 0.0, int nmax = 3)
{
  auto& r = c.rng; int n2 = s.dim > 1 ? r.i(1,nmax) : 1, n3 = s.dim > 2 ? r.i(1,std::min(nmax,2)) : 1; double x0 = r.r(-1,1);
  for (int i = 0; i < np; i++) {
    HPatch* q = new HPatch(s.dim,s.getNoSpaceDim(),nf,r.i(1,nmax),n2,n3,p); double L = 0.25*r.i(1,8);
    q->makeCoords(Vec3(x0,0.5,-0.25),Vec3(L,1.5,1.0)); x0 += L;
    if (amp > 0) for (Vec3& X : q->X) { Vec3 Y(X); if (s.dim > 1) X.x += amp*sin(3*Y.y+2*Y.z+Y.x); if (s.dim > 2) X.z += amp*sin(2*Y.x-Y.y); if (s.dim > 1) X.y += amp*cos(Y.x+2*Y.z); }
    s.add(q);
  }
}
#endif
