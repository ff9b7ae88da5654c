// A model of patches whose solutions can be evaluated at points, nodes and elements, for the checks of result output.
#ifndef OMODEL_H_
#define OMODEL_H_
#include "hsim.h"
#include "IFEM.h"
#include "LogStream.h"
#include "AnaSol.h"
#include "ExprFunctions.h"
#include "Functions.h"
#include "Profiler.h"
#include "tinyxml2.h"
#include <fstream>
using namespace vf;

namespace {
typedef std::vector<double> Vec;

class Itg : public IntegrandBase
{
public:
  int hide = -1, npd = 0; char prin = 0; size_t nef = 0; //!< Suppressed secondary component, number of principal directions, number of element fields
  size_t nf, n2, perLine = 999; double a[8], scale = 1.0; bool grad; double t0 = -1; std::vector<int> used;
  Itg(int n, int f, int s, Rng& r) : IntegrandBase(n), nf(f), n2(s), grad(r.p(0.4)) { npv = f; primsol.resize(1); for (double& x : a) x = r.r(-2,2); }
  size_t getNoFields(int fld) const override { return fld == 1 ? nf : fld > 1 ? n2 : 0; }
  size_t getNo2ndSolPerLine() const override { return perLine; }
  std::string getField1Name(size_t i, const char* p = nullptr) const override { return std::string(p ? std::string(p) + " " : "") + "u_" + char('x'+i); }
  std::string getField2Name(size_t i, const char* p = nullptr) const override { return std::string(p ? std::string(p) + " " : "") + fmt("s%zu",i); }
  bool suppressOutput(size_t i, ASM::ResultClass cl) const override { return (int)i == hide && cl == ASM::SECONDARY; }
  size_t getNoElmFields() const override { return nef; }
  std::string getEFieldName(size_t i) const override { return fmt("e%zu",i); }
  void initResultPoints(double t, char p = 0) override { myTime = time2 = t; prin = p; } double time2 = -1;
  bool getPrincipalDir(Matrix& d, size_t n, size_t k) const override { if (!prin || (int)k > npd) return false; d.resize(nsd,n); for (size_t j = 1; j <= n; j++) for (int i = 1; i <= nsd; i++) d(i,j) = 10.0*k+i+0.01*j; return true; }
  void primaryScalarFields(Matrix& m) override { if (scale != 1.0) m *= scale; }
  //! The secondary solution of a point: mixes the interpolated primary solution, its gradient and the coordinates
  Vec second(const Vec& u, const Vec& g, const Vec3& X) const
  { Vec s; for (size_t i = 0; i < n2; i++) s.push_back(a[i%8]*u[i%nf] + (grad ? g[i%nf] : 0.0) + 0.25*i*X.x - X.y + 0.5*X.z); return s; }
  bool evalSol(Vector& s, const FiniteElement& fe, const Vec3& X, const std::vector<int>& mnpc) const override
  {
    Vec u(nf,0.0), g(nf,0.0); const Vector& v = primsol.front();
    for (size_t n = 0; n < fe.N.size(); n++) for (size_t k = 0; k < nf; k++) { u[k] += fe.N[n]*v[nf*mnpc[n]+k]; if (grad) g[k] += fe.dNdX(n+1,1)*v[nf*mnpc[n]+k]; }
    s = second(u,g,X); return n2 > 0;
  }
};

//! \brief A patch with the evaluation of solutions at points, nodes and element centers, as the patches of the library do it.
class OPatch : public HPatch
{
public:
  bool spline = false; Vec3 A, L; mutable long evals = 0;
  OPatch(int dim, int nsd_, int nf_, int a, int b, int c, int deg) : HPatch(dim,nsd_,nf_,a,b,c,deg) {}

  int closest(const double* u) const { int i[3] = {0,0,0}; for (int d = 0; d < ndim; d++) i[d] = std::min(nn[d]-1,std::max(0,(int)std::floor(u[d]*(nn[d]-1)+0.5))); return 1+node(i[0],i[1],i[2]); }
  bool inside(const double* u) const { for (int d = 0; d < ndim; d++) if (u[d] < 0 || u[d] > 1) return false; return true; }
  void fe(FiniteElement& f, int e, const double* xi) const { Matrix dNdu; this->shape(f,dNdu,xi); this->getElementCoordinates(f.Xn,1+e); f.detJxW = utl::Jacobian(f.G,f.dNdX,f.Xn,dNdu); }
  //! Values, first gradient component and location at a point of an element
  void values(const Vec& v, int nc, int e, const double* xi, Vec& u, Vec& g, Vec3& P) const
  {
    FiniteElement f; this->fe(f,e,xi); u.assign(nc,0.0); g = u; P = f.Xn*f.N;
    for (size_t n = 0; n < f.N.size(); n++) for (int k = 0; k < nc; k++) { u[k] += f.N[n]*v[nc*MNPC[e][n]+k]; g[k] += f.dNdX(n+1,1)*v[nc*MNPC[e][n]+k]; }
  }
  int evalPoint(const double* u, double* param, Vec3& P) const override
  {
    double w[3] = {0,0,0}; for (int d = 0; d < ndim; d++) w[d] = u[d];
    if (!inside(w)) return -1;
    if (!spline) { int n = closest(w); P = X[n-1]; for (int d = 0; d < ndim; d++) param[d] = w[d]; return n; }
    return HPatch::evalPoint(w,param,P);
  }
  double findPoint(Vec3& P, double* param) const override
  {
    Vec3 Q(P); for (int d = 0; d < ndim; d++) { param[d] = std::min(1.0,std::max(0.0,(P[d]-A[d])/L[d])); Q[d] = A[d]+L[d]*param[d]; }
    double dist = (Q-P).length(); P = Q; return dist;
  }
  bool evalSolution(Matrix& f, const Vector& v, const RealArray* gpar, bool regular, int, int) const override
  {
    size_t np = gpar ? gpar[0].size() : regular ? nel : nnod; int nc = v.size()/nnod; f.resize(nc,np); if (regular && gpar) return false;
    for (size_t i = 0; i < np; i++) {
      Vec u, g; Vec3 P; double xi[3] = {0,0,0}; int e = i;
      if (gpar) { double w[3] = {0,0,0}; for (int d = 0; d < ndim; d++) w[d] = gpar[d].at(i); e = locate(w,xi); }
      if (!gpar && !regular) u.assign(v.begin()+nc*i,v.begin()+nc*i+nc); else values(v,nc,e,xi,u,g,P);
      f.fillColumn(i+1,u); evals++;
    }
    return true;
  }
  bool evalSolution(Matrix& s, const Vector& v, const int* n, int f, bool p) const override { return HPatch::evalSolution(s,v,n,f,p); }
  bool point(Matrix& f, size_t col, size_t np, const IntegrandBase& itg, int e, const double* xi) const
  {
    FiniteElement q; this->fe(q,e,xi); Vector s; q.idx = firstEl+e; q.iel = MLGE[e];
    if (!itg.evalSol(s,q,q.Xn*q.N,MNPC[e])) return false;
    if (f.empty()) f.resize(s.size(),np);
    f.fillColumn(col,s); evals++; return true;
  }
  bool evalSolution(Matrix& f, const IntegrandBase& itg, const RealArray* gpar, bool regular) const override
  {
    f.clear(); bool cent = gpar ? regular && gpar->empty() : true; size_t np = cent ? nel : gpar->size();
    for (size_t i = 0; i < np; i++) {
      double xi[3] = {0,0,0}; int e = i;
      if (!cent) { double w[3] = {0,0,0}; for (int d = 0; d < ndim; d++) w[d] = gpar[d].at(i); e = locate(w,xi); }
      if (!this->point(f,i+1,np,itg,e,xi)) return false;
    }
    return true;
  }
  bool evalSolution(Matrix& f, const IntegrandBase& itg, const IntVec& elms) const override
  {
    f.clear(); double xi[3] = {0,0,0};
    for (size_t i = 0; i < elms.size(); i++) if (elms[i] < 1 || elms[i] > (int)nel || !this->point(f,i+1,elms.size(),itg,elms[i]-1,xi)) return false;
    return true;
  }
  //! All nodes: the value from the first element that is connected to the node
  bool evalSolution(Matrix& f, const IntegrandBase& itg, const int*, char) const override
  {
    f.clear(); for (size_t n = 0; n < nnod; n++) { int e; double xi[3]; this->first(n,e,xi); if (!this->point(f,n+1,nnod,itg,e,xi)) return false; }
    return true;
  }
  void first(int n, int& e, double* xi) const
  {
    int i[3] = { n%nn[0], n/nn[0]%nn[1], n/nn[0]/nn[1] }, q[3] = {0,0,0};
    for (int d = 0; d < 3; d++) { xi[d] = 0; if (d < ndim) { q[d] = std::min(ne[d]-1,i[d]/p); xi[d] = 2.0*(i[d]-q[d]*p)/p-1.0; } }
    e = q[0]+ne[0]*(q[1]+ne[1]*q[2]);
  }
};

class OSim : public HSim
{
public:
  Vec rf; bool haveRF = false;
  OSim(IntegrandBase* i, int d, int s) : HSim(i,d,s) {}
  void preprocessResultPoints() override { this->SIMoutput::preprocessResultPoints(); }
  const RealArray* getReactionForces() const override { return haveRF ? &rf : nullptr; }
  using SIMinput::myEntitys; using SIMbase::myLoc2Glb;
  OPatch* pch(size_t i) const { return static_cast<OPatch*>(myModel[i]); }
};

struct Pt { int patch = 1, node = 0, elm = 0, kind = 0; double u[3] = {0,0,0}; Vec3 X; }; // kind: 0 point, 1 element, 2 all nodes, 3 all elements
struct Group { std::string file; std::vector<Pt> pts; bool coord = false; };

struct Model
{
  OSim* sim = nullptr; Itg* itg; int dim, nf, np, nxs = 0, nstr = 0; bool spline; std::vector<Vec3> Xg;
  RealFunc* u1 = nullptr; VecFunc* u2 = nullptr; VecFunc* s1 = nullptr; STensorFunc* s3 = nullptr;
  ~Model() { delete sim; }
  int gdof(int p, int n, int k) const { return sim->mySam->getNodeDOFs(sim->pch(p)->getNodeID(n)).first-1+k; }
  Vec local(const Vec& g, int p) const { OPatch* q = sim->pch(p); Vec v; for (size_t n = 1; n <= q->nnod; n++) for (int k = 0; k < nf; k++) v.push_back(g[gdof(p,n,k)]); return v; }
};

bool build(Ctx& c, Model& m, bool distort, bool rigid = false, int deg = 0)
{
  auto& r = c.rng; m.dim = r.i(1,3); int nsd = m.dim; m.np = r.i(1,3); m.nf = r.i(1,3); m.spline = r.p(0.5); if (rigid) { m.dim = r.i(2,3); nsd = m.dim; m.nf = m.dim; }
  int p = deg ? deg : r.i(1,2);
  m.itg = new Itg(nsd,m.nf,r.p(0.2) ? 0 : r.i(1,6),r); if (r.p(0.4)) m.itg->perLine = r.i(2,4); if (r.p(0.2)) m.itg->scale = 2.0;
  m.sim = new OSim(m.itg,m.dim,nsd); m.sim->opt.discretization = m.spline ? ASM::Spline : ASM::Lagrange;
  int n2 = m.dim > 1 ? r.i(1,3) : 1, n3 = m.dim > 2 ? r.i(1,2) : 1; double x0 = r.r(-1,1); double amp = distort && r.p(0.5) ? 0.05 : 0.0;
  for (int i = 0; i < m.np; i++) {
    OPatch* q = new OPatch(m.dim,nsd,m.nf,r.i(1,3),n2,n3,p); q->spline = m.spline; double L = 0.25*r.i(1,8); q->A = Vec3(x0,0.5,-0.25); q->L = Vec3(L,1.5,1.0);
    if (m.dim < 2) q->A.y = q->A.z = q->L.y = q->L.z = 0; if (m.dim < 3) q->A.z = q->L.z = 0;
    q->makeCoords(q->A,q->L); x0 += L + (r.p(0.2) ? 0.5 : 0.0);
    if (amp > 0) for (Vec3& X : q->X) { Vec3 Y(X); if (m.dim > 1) { X.x += amp*sin(3*Y.y+2*Y.z+Y.x); X.y += amp*cos(Y.x+2*Y.z); } if (m.dim > 2) X.z += amp*sin(2*Y.x-Y.y); }
    m.sim->add(q);
  }
  if (!m.sim->createFEMmodel('Y')) return c.check(false,"model created");
  if (rigid) { int ng = 0; for (int i = 0; i < m.np; i++) ng += m.sim->pch(i)->nnod; for (int i = 0; i < m.np; i++) if (r.p(i ? 0.3 : 0.8)) { OPatch* q = m.sim->pch(i); int gm = ++ng; Vec3 X(0.1,0.2,m.dim > 2 ? 0.3 : 0.0); q->addRigidCpl(1+2*(m.dim-1),m.dim-1,0,gm,X,true); q->extra[q->nnod+1] = X; c.ev("master nodes"); } }
  for (int i = 0; i < m.np; i++) if (r.p(0.6)) { int l = r.i(1,2*m.dim), d = r.pick({1,12,123}); for (int n : m.sim->pch(i)->bou(l)) m.sim->pch(i)->fix(n+1,d); }
  // Exact solutions
  if (r.p(0.4)) {
    bool sc = m.nf == 1 || r.p(0.3); m.nxs = r.p(0.2) ? 0 : sc ? 1 : nsd;
    if (m.nxs && sc) m.u1 = new EvalFunction("x+2*y-z+t"); else if (m.nxs) m.u2 = new VecFuncExpr(m.dim == 1 ? "x*x+t" : m.dim == 2 ? "x*x+t|y-x" : "x*x+t|y-x|z*y");
    if (r.p(0.5)) { if (sc) m.s1 = new VecFuncExpr(m.dim == 1 ? "x-t" : m.dim == 2 ? "x-t|y*y" : "x-t|y*y|x*z"); else m.s3 = new STensorFuncExpr(m.dim == 1 ? "x" : m.dim == 2 ? "x|y|t" : "x|y|z|t|x*y|y*z"); }
    m.sim->mySol = sc ? new AnaSol(m.u1,m.s1) : new AnaSol(m.u2,m.s3);
  }
  if (getenv("VF_SHOW")) fprintf(stderr,"model %dD np %d\n",m.dim,m.np);
  c.d(m.dim); c.d(m.np); c.d(m.nf); c.d(m.spline); c.d(m.itg->n2); c.d(p);
  return true;
}

}
#endif
