// A Lagrange patch (structured grid of 1D, 2D or 3D elements of degree 1-3) on the library's patch base class.
//
// The spline and Lagrange patches of the library need GoTools, which this sandbox does not have. This one
// implements the abstract interface only, so that everything in the base class, the equation system,
// the integrands and the simulation drivers is the library's own code.
#ifndef HPATCH_H_
#define HPATCH_H_
#include "ASMbase.h"
#include "Integrand.h"
#include "GlobalIntegral.h"
#include "LocalIntegral.h"
#include "FiniteElement.h"
#include "TimeDomain.h"
#include "ThreadGroups.h"
#include "Lagrange.h"
#include "CoordinateMapping.h"
#include "GaussQuadrature.h"
#include "GlbL2projector.h"
#include "SystemMatrix.h"
#include "ElementBlock.h"
#include "MPC.h"
#include "MPCLess.h"
#include "Vec3.h"
#include "Vec3Oper.h"
#include "vf.h"

#ifdef HPATCH_STRUCT
#include "ASMstruct.h"
// This class needs GoTools and is left out of the build. Only its interface is used here.
ASMstruct::ASMstruct(unsigned char n_p, unsigned char n_s, unsigned char n_f) : ASMbase(n_p,n_s,n_f) {}
ASMstruct::ASMstruct(const ASMstruct& patch, unsigned char n_f) : ASMbase(patch,n_f) {}
ASMstruct::~ASMstruct() {}
bool ASMstruct::diracPoint(Integrand&, GlobalIntegral&, const double*, const Vec3&) { return false; }
bool ASMstruct::separateProjectionBasis() const { return false; }
void ASMstruct::swapProjectionBasis() {}
bool ASMstruct::addXNodes(unsigned short int, size_t, IntVec&) { return false; }
bool ASMstruct::checkThreadGroups(const std::vector<std::set<int>>&, int, bool) { return true; }
#define HPATCH_BASE ASMstruct
#else
#define HPATCH_BASE ASMbase
#endif

class HPatch : public HPATCH_BASE
{
public:
  int ne[3] = {1,1,1}, p = 1, nn[3] = {1,1,1};
  std::map<size_t,Vec3> extra;          //!< Coordinates of extraordinary nodes
  std::vector<Vec3> X;                  //!< Nodal coordinates
  ThreadGroups groups; bool useGroups = false;
  int threadDelay = 0;
  std::vector<int> bouElms;             //!< Elements visited by the last boundary integral

  HPatch(int dim, int nsd_, int nf_, int n1, int n2 = 1, int n3 = 1, int deg = 1) : HPATCH_BASE(dim,nsd_,nf_)
  {
    p = deg; int n[3] = {n1,n2,n3};
    for (int d = 0; d < 3; d++) { ne[d] = d < dim ? n[d] : 1; nn[d] = d < dim ? p*n[d]+1 : 1; }
    this->setGauss(0);
  }
  HPatch(const HPatch& o, unsigned char nf_) : HPATCH_BASE(o,nf_), p(o.p), X(o.X)
  { for (int d = 0; d < 3; d++) { ne[d] = o.ne[d]; nn[d] = o.nn[d]; } groups = o.groups; }

  // Exposed internals
  using ASMbase::BCode; using ASMbase::dCode; using ASMbase::mpcs; using ASMbase::myMLGN; using ASMbase::myMLGE; using ASMbase::myMNPC;
  using ASMbase::nnod; using ASMbase::nel; using ASMbase::firstIp; using ASMbase::firstEl; using ASMbase::nodeSets; using ASMbase::neighbors; using ASMbase::MLGE; using ASMbase::MLGN; using ASMbase::MNPC;
  using ASMbase::add2PC; using ASMbase::add3PC; using ASMbase::addPeriodicity; using ASMbase::makePeriodic; using ASMbase::addNeighbor;
  using ASMbase::allDofs; using ASMbase::collapseNodes; using ASMbase::deformedConfig; using ASMbase::addRigidMPC; using ASMbase::addLocal2GlobalCpl;
  using ASMbase::createRgdMasterNode; using ASMbase::myElms; using ASMbase::searchCtrlPt; using ASMbase::getNoGaussPt;

#ifdef HPATCH_STRUCT
  using ASMbase::evalSolution;
  bool getSize(int& a, int& b, int& d, int = 0) const override { a = nn[0]; b = ndim > 1 ? nn[1] : 0; d = ndim > 2 ? nn[2] : 0; return true; }
  bool getNoStructElms(int& a, int& b, int& d) const override { a = ne[0]; b = ndim > 1 ? ne[1] : 0; d = ndim > 2 ? ne[2] : 0; return true; }
  void evaluateBasis(double, double, double, Vector&) const override {}
  Go::GeomObject* evalSolution(const IntegrandBase&) const override { return nullptr; }
  void getElementBorders(int, double*) const override {}
#endif
  std::string ntype; std::vector<int> ndof; //!< Types of the nodes, and their number of DOFs
  char getNodeType(size_t inod) const override { return inod > 0 && inod <= ntype.size() ? ntype[inod-1] : ASMbase::getNodeType(inod); }
  unsigned char getNodalDOFs(size_t inod) const override { return inod > 0 && inod <= ndof.size() ? ndof[inod-1] : ASMbase::getNodalDOFs(inod); }

  bool empty() const override { return X.empty(); }
  bool read(std::istream&) override { return true; }
  bool write(std::ostream&, int) const override { return true; }

  int node(int i, int j = 0, int k = 0) const { return i + nn[0]*(j + nn[1]*k); }
  bool generateFEMTopology() override
  {
    if (X.empty()) this->makeCoords(Vec3(0,0,0),Vec3(1,1,1));
    if (!myMLGN.empty()) return true;
    nnod = nn[0]*nn[1]*nn[2];
    nel = ne[0]*ne[1]*ne[2];
    for (size_t n = 0; n < nnod; n++) myMLGN.push_back(++gNod);
    for (int k = 0; k < ne[2]; k++) for (int j = 0; j < ne[1]; j++) for (int i = 0; i < ne[0]; i++) {
      myMLGE.push_back(++gEl);
      IntVec m;
      for (int c = 0; c <= (ndim > 2 ? p : 0); c++) for (int b = 0; b <= (ndim > 1 ? p : 0); b++) for (int a = 0; a <= p; a++)
        m.push_back(node(p*i+a,p*j+b,p*k+c));
      myMNPC.push_back(m);
    }
    return true;
  }
  void makeCoords(const Vec3& X0, const Vec3& L, vf::Rng* r = nullptr, double amp = 0.0)
  {
    X.clear();
    for (int k = 0; k < nn[2]; k++) for (int j = 0; j < nn[1]; j++) for (int i = 0; i < nn[0]; i++) {
      double t[3] = { nn[0] > 1 ? double(i)/(nn[0]-1) : 0.0, nn[1] > 1 ? double(j)/(nn[1]-1) : 0.0, nn[2] > 1 ? double(k)/(nn[2]-1) : 0.0 };
      Vec3 x(X0.x+L.x*t[0],X0.y+L.y*t[1],X0.z+L.z*t[2]);
      if (r) for (int d = 0; d < ndim; d++) x[d] += amp*L[d]/std::max(1,nn[d]-1)*r->r(-1,1);
      X.push_back(x);
    }
  }

  Vec3 getCoord(size_t inod) const override
  {
    if (inod >= 1 && inod <= X.size()) return X[inod-1];
    auto it = extra.find(inod);
    return it == extra.end() ? Vec3() : it->second;
  }
  void getNodalCoordinates(Matrix& M, bool = false) const override
  {
    M.resize(nsd,X.size());
    for (size_t n = 0; n < X.size(); n++) for (int d = 0; d < nsd; d++) M(d+1,n+1) = X[n][d];
  }
  bool getElementCoordinates(Matrix& M, int iel, bool = false) const override
  {
    if (iel < 1 || iel > (int)MNPC.size()) return false;
    size_t nen = nodesPerElm(); const IntVec& m = MNPC[iel-1];
    if (m.size() < nen) return false;
    M.resize(nsd,nen);
    for (size_t n = 0; n < nen; n++) for (int d = 0; d < nsd; d++) M(d+1,n+1) = X[m[n]][d];
    return true;
  }
  Vec3 getElementCenter(int iel) const override
  {
    Vec3 c; size_t nen = nodesPerElm();
    for (size_t n = 0; n < nen; n++) c += X[MNPC[iel-1][n]];
    c /= nen; return c;
  }
  size_t nodesPerElm() const { size_t n = 1; for (int d = 0; d < ndim; d++) n *= p+1; return n; }

  //! Indices (0-based) of the nodes on a boundary: 1/2 = first direction min/max, and so on
  std::vector<int> bou(int l) const
  {
    std::vector<int> b; int dir = (l-1)/2; bool hi = l%2 == 0;
    if (dir >= ndim) return b;
    for (int k = 0; k < nn[2]; k++) for (int j = 0; j < nn[1]; j++) for (int i = 0; i < nn[0]; i++) {
      int t[3] = {i,j,k};
      if (t[dir] == (hi ? nn[dir]-1 : 0)) b.push_back(node(i,j,k));
    }
    return b;
  }
  void getBoundaryNodes(int l, IntVec& nodes, int = 0, int = 1, int = -1, bool local = false) const override
  { for (int n : bou(l%10)) nodes.push_back(local ? n+1 : MLGN[n]); }
  void findBoundaryElms(IntVec& elms, int l, int = -1) const override
  {
    elms.clear(); int dir = (l-1)/2; bool hi = l%2 == 0, any = l == 0;
    for (int k = 0, e = 0; k < ne[2]; k++) for (int j = 0; j < ne[1]; j++) for (int i = 0; i < ne[0]; i++, e++) {
      int t[3] = {i,j,k};
      if (any || (dir < ndim && t[dir] == (hi ? ne[dir]-1 : 0))) elms.push_back(e);
    }
  }
  size_t getNoBoundaryElms(char l, char) const override { IntVec e; this->findBoundaryElms(e,l%10); return e.size(); }
  bool getParameterDomain(Real2DMat& u, IntVec* = nullptr) const override { u.assign(ndim,{0.0,1.0}); return true; }
  bool getOrder(int& a, int& b, int& c) const override { a = p+1; b = ndim > 1 ? p+1 : 0; c = ndim > 2 ? p+1 : 0; return true; }
  void getElmConnectivities(IntMat& nb, int = 1) const override
  {
    nb.assign(nel,IntVec());
    for (int k = 0, e = 0; k < ne[2]; k++) for (int j = 0; j < ne[1]; j++) for (int i = 0; i < ne[0]; i++, e++) {
      int t[3] = {i,j,k}, s[3] = {1,ne[0],ne[0]*ne[1]};
      for (int d = 0; d < ndim; d++) { nb[e].push_back(t[d] > 0 ? e-s[d] : -1); nb[e].push_back(t[d] < ne[d]-1 ? e+s[d] : -1); }
    }
  }
  bool updateCoords(const Vector& displ) override
  {
    if (displ.size() != nsd*X.size()) return false;
    for (size_t n = 0; n < X.size(); n++) for (int d = 0; d < nsd; d++) X[n][d] += displ[nsd*n+d];
    return true;
  }

  void shape(FiniteElement& fe, Matrix& dNdu, const double* xi) const
  { Lagrange::computeBasis(fe.N,dNdu,p+1,xi[0],ndim > 1 ? p+1 : 0,xi[1],ndim > 2 ? p+1 : 0,xi[2]); }

  bool integrateElm(Integrand& itg, GlobalIntegral& glb, int iel, const TimeDomain& time)
  {
    FiniteElement fe;
    if ((fe.age = this->getAge(iel,time.t)) < 0.0) return true;
    this->getElementCoordinates(fe.Xn,1+iel);
    size_t nen = fe.Xn.cols();
    Vec4 P(nullptr,time.t);
    if (itg.getIntegrandType() & Integrand::ELEMENT_CENTER) P = this->getElementCenter(1+iel);
    fe.iel = MLGE[iel]; fe.idx = firstEl+iel; fe.p = p; fe.q = fe.r = ndim > 1 ? p : 0;
    int ng = getNoGaussPt(p+1);
    const double* xg = GaussQuadrature::getCoord(ng); const double* wg = GaussQuadrature::getWeight(ng);
    if (!xg || !wg) return false;
    size_t npt = 1; for (int d = 0; d < ndim; d++) npt *= ng;
    LocalIntegral* A = itg.getLocalIntegral(nen,fe.iel); if (!A) return true; // no contributions from this element
    bool ok = itg.initElement(MNPC[iel],fe,P,npt,*A);
    Matrix dNdu;
    fe.iGP = firstIp + iel*npt;
    for (size_t ip = 0; ip < npt && ok; ip++, fe.iGP++) {
      int k[3] = { (int)ip%ng, (int)(ip/ng)%ng, (int)(ip/ng/ng) };
      double xi[3] = {0,0,0}, w = 1.0;
      for (int d = 0; d < ndim; d++) { xi[d] = xg[k[d]]; w *= wg[k[d]]; }
      fe.xi = xi[0]; fe.eta = xi[1]; fe.zeta = xi[2];
      int e[3] = { iel%ne[0], iel/ne[0]%ne[1], iel/ne[0]/ne[1] };
      fe.u = (e[0]+0.5*(xi[0]+1))/ne[0]; fe.v = (e[1]+0.5*(xi[1]+1))/ne[1]; fe.w = (e[2]+0.5*(xi[2]+1))/ne[2];
      this->shape(fe,dNdu,xi);
      fe.detJxW = utl::Jacobian(fe.G,fe.dNdX,fe.Xn,dNdu);
      if (fe.detJxW == 0.0) continue;
      P.assign(fe.Xn*fe.N);
      fe.detJxW *= w;
      ok = itg.evalInt(*A,fe,time,P);
    }
    if (ok) ok = itg.finalizeElement(*A,fe,time,firstIp+iel*npt);
    if (ok) ok = glb.assemble(A->ref(),fe.iel);
    A->destruct();
    return ok;
  }
  bool integrate(Integrand& itg, GlobalIntegral& glb, const TimeDomain& time) override
  {
    if (this->empty()) return true;
    bool ok = true;
    if (!useGroups || glb.threadSafe()) {
      for (size_t e = 0; e < nel && ok; e++) if (this->isElementInPartition(e)) ok = this->integrateElm(itg,glb,e,time);
      return ok;
    }
    for (size_t g = 0; g < groups.size() && ok; g++)
#pragma omp parallel for schedule(static)
      for (size_t t = 0; t < groups[g].size(); t++)
        for (int iel : groups[g][t])
          if (!this->integrateElm(itg,glb,iel,time)) {
#pragma omp atomic write
            ok = false;
          }
    return ok;
  }
  bool integrate(Integrand& itg, int lIndex, GlobalIntegral& glb, const TimeDomain& time) override
  {
    IntVec elms; this->findBoundaryElms(elms,lIndex%10); bouElms.clear();
    itg.setNeumannOrder(1+lIndex/10);
    int dir = (lIndex%10-1)/2; bool hi = lIndex%2 == 0;
    int ng = itg.getBouIntegrationPoints(getNoGaussPt(p+1,true));
    const double* xg = GaussQuadrature::getCoord(ng); const double* wg = GaussQuadrature::getWeight(ng);
    size_t npt = 1; for (int d = 1; d < ndim; d++) npt *= ng;
    auto fb = firstBp.find(lIndex%10); size_t first = fb == firstBp.end() ? 0 : fb->second, cnt = 0;
    for (int iel : elms) {
      if (!this->isElementInPartition(iel)) continue;
      FiniteElement fe; Matrix dNdu; Vec3 nrm;
      if ((fe.age = this->getAge(iel,time.t)) < 0.0) continue;
      bouElms.push_back(iel);
      fe.idx = firstEl+iel; fe.iel = std::abs(MLGE[iel]);
      this->getElementCoordinates(fe.Xn,1+iel);
      LocalIntegral* A = itg.getLocalIntegral(fe.Xn.cols(),fe.iel,true); if (!A) continue;
      bool ok = itg.initElementBou(MNPC[iel],*A);
      fe.iGP = first + (cnt++)*npt;
      for (size_t ip = 0; ip < npt && ok; ip++, fe.iGP++) {
        double xi[3] = {0,0,0}, w = 1.0; size_t q = ip;
        for (int d = 0; d < ndim; d++) if (d == dir) xi[d] = hi ? 1 : -1; else { xi[d] = xg[q%ng]; w *= wg[q%ng]; q /= ng; }
        fe.xi = xi[0]; fe.eta = xi[1]; fe.zeta = xi[2];
        this->shape(fe,dNdu,xi);
        if (ndim == 1) { fe.detJxW = utl::Jacobian(fe.G,fe.dNdX,fe.Xn,dNdu) == 0.0 ? 0.0 : 1.0; nrm = Vec3(hi ? 1 : -1,0,0); }
        else {
          fe.detJxW = utl::Jacobian(fe.G,nrm,fe.dNdX,fe.Xn,dNdu,ndim == 2 ? dir+1 : 1+(dir+1)%3,ndim == 2 ? 2-dir : 1+(dir+2)%3);
          if (!hi) nrm *= -1.0;
        }
        if (fe.detJxW == 0.0) continue;
        Vec4 P(fe.Xn*fe.N,time.t);
        fe.detJxW *= w;
        ok = itg.evalBou(*A,fe,time,P,nrm);
      }
      if (ok) ok = itg.finalizeElementBou(*A,fe,time);
      if (ok) ok = glb.assemble(A->ref(),fe.iel);
      A->destruct();
      if (!ok) return false;
    }
    return true;
  }
  void generateThreadGroups(const Integrand&, bool, bool ignoreGlobalLM) override
  {
    if (useGroups && groups.empty()) {
      std::vector<bool> e1(ne[0],true), e2(ne[1],true), e3(ne[2],true);
      if (ndim == 1) groups.oneStripe(nel); else if (ndim == 2) groups.calcGroups(ne[0],ne[1],1); else groups.calcGroups(ne[0],ne[1],ne[2],1);
    }
  }

  //! Element (0-based) and local coordinates of domain parameters in [0,1]
  int locate(const double* u, double* xi) const
  {
    int e[3] = {0,0,0};
    for (int d = 0; d < ndim; d++) {
      e[d] = std::min(ne[d]-1,std::max(0,(int)std::floor(u[d]*ne[d])));
      xi[d] = 2.0*(u[d]*ne[d]-e[d])-1.0;
    }
    return e[0] + ne[0]*(e[1] + ne[1]*e[2]);
  }
  int evalPoint(const double* u, double* param, Vec3& P) const override
  {
    FiniteElement fe; Matrix dNdu; double xi[3] = {0,0,0}; int e = locate(u,xi);
    for (int d = 0; d < ndim; d++) param[d] = u[d];
    this->shape(fe,dNdu,xi); P = Vec3();
    for (size_t n = 0; n < fe.N.size(); n++) P += fe.N[n]*X[MNPC[e][n]];
    for (size_t n = 0; n < X.size(); n++) if (P.equal(X[n],1e-6)) return n+1;
    return 0;
  }
  int findElementContaining(const double* u) const override { double xi[3]; return 1+locate(u,xi); }
  double findPoint(Vec3&, double*) const override { return -1.0; }
  bool tesselate(ElementBlock& g, const int*) const override
  {
    if (ndim == 1) g.resize(nn[0]); else if (ndim == 2) g.resize(nn[0],nn[1]); else g.resize(nn[0],nn[1],nn[2]);
    for (size_t n = 0; n < X.size(); n++) g.setCoor(n,X[n]);
    // The elements of the grid are the linear cells between the nodes
    int m[3] = { nn[0]-1, ndim > 1 ? nn[1]-1 : 1, ndim > 2 ? nn[2]-1 : 1 }; int ip = 0, ie = 0;
    for (int k = 0; k < m[2]; k++) for (int j = 0; j < m[1]; j++) for (int i = 0; i < m[0]; i++) {
      if (ndim == 1) { g.setNode(ip++,node(i)); g.setNode(ip++,node(i+1)); }
      else for (int c = 0; c < (ndim > 2 ? 2 : 1); c++) {
        g.setNode(ip++,node(i,j,k+c)); g.setNode(ip++,node(i+1,j,k+c)); g.setNode(ip++,node(i+1,j+1,k+c)); g.setNode(ip++,node(i,j+1,k+c));
      }
      g.setElmId(++ie,1+(i/p)+ne[0]*((j/p)+ne[1]*(k/p)));
    }
    return true;
  }
  size_t getNoViz(const int*) const override { return X.size(); }
  bool evalSolution(Matrix& sField, const Vector& locSol, const int*, int n_f = 0, bool = false) const override
  {
    size_t nc = n_f ? n_f : locSol.size()/X.size();
    sField.resize(nc,X.size());
    for (size_t n = 0; n < X.size(); n++) for (size_t c = 0; c < nc; c++) sField(c+1,n+1) = locSol[nc*n+c];
    return true;
  }

};
#endif
