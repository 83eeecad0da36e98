// Routes the driver's calls of the dycore either to its C interface or, after the operation
// "lang f", to its Fortran interface (fdriver.F90).
extern int LF;
int fx_init(void);
int fx_finalize(void);
int fx_create(TDy *);
int fx_destroy(TDy *);
int fx_setmode(TDy, int);
int fx_setdisc(TDy, int);
int fx_setdmctor(TDy);
int fx_call(TDy, int);
int fx_real(TDy, int, double);
int fx_int(TDy, int, int);
int fx_permtensor(TDy, double *);
int fx_setfn(TDy, int, int);
int fx_register(const char *, int);
int fx_select(TDy, int, const char *);
int fx_vec(TDy, int, Vec);
int fx_glonat(TDy, Vec, Vec);
int fx_newvec(TDy, int, Vec *);
int fx_newmat(TDy, Mat *);
int fx_getdm(TDy, DM *);
int fx_solver(TDy, int, void *);
int fx_updatestate(TDy, double *, int);
extern void _gfortran_set_args(int, char **);
#define TDyInit(c, v) (LF ? (_gfortran_set_args(c, v), fx_init()) : TDyInit(c, v))
#define TDyFinalize() (LF ? fx_finalize() : TDyFinalize())
#define TDyCreate(c, t) (LF ? fx_create(t) : TDyCreate(c, t))
#define TDyDestroy(t) (LF ? fx_destroy(t) : TDyDestroy(t))
#define TDySetMode(t, m) (LF ? fx_setmode(t, m) : TDySetMode(t, m))
#define TDySetDiscretization(t, m) (LF ? fx_setdisc(t, m) : TDySetDiscretization(t, m))
#define TDySetDMConstructor(t, m, f) (LF ? fx_setdmctor(t) : TDySetDMConstructor(t, m, f))
#define TDySetFromOptions(t) (LF ? fx_call(t, 0) : TDySetFromOptions(t))
#define TDyDriverInitializeTDy(t) (LF ? fx_call(t, 1) : TDyDriverInitializeTDy(t))
#define TDySetup(t) (LF ? fx_call(t, 2) : TDySetup(t))
#define TDyTimeIntegratorOutputRegression(t) (LF ? fx_call(t, 3) : TDyTimeIntegratorOutputRegression(t))
#define TDyCreateVectors(t) (LF ? fx_call(t, 4) : TDyCreateVectors(t))
#define TDyCreateJacobian(t) (LF ? fx_call(t, 5) : TDyCreateJacobian(t))
#define TDyPreSolveSNESSolver(t) (LF ? fx_call(t, 6) : TDyPreSolveSNESSolver(t))
#define TDyUpdateDiagnostics(t) (LF ? fx_call(t, 7) : TDyUpdateDiagnostics(t))
#define TDyTimeIntegratorRunToTime(t, v) (LF ? fx_real(t, 0, v) : TDyTimeIntegratorRunToTime(t, v))
#define TDyTimeIntegratorSetTimeStep(t, v) (LF ? fx_real(t, 1, v) : TDyTimeIntegratorSetTimeStep(t, v))
#define TDySetDtimeForSNESSolver(t, v) (LF ? fx_real(t, 2, v) : TDySetDtimeForSNESSolver(t, v))
#define TDySetConstantPorosity(t, v) (LF ? fx_real(t, 3, v) : TDySetConstantPorosity(t, v))
#define TDySetConstantResidualSaturation(t, v) (LF ? fx_real(t, 4, v) : TDySetConstantResidualSaturation(t, v))
#define TDySetWaterDensityType(t, v) (LF ? fx_int(t, 0, v) : TDySetWaterDensityType(t, v))
#define TDyMPFAOSetGmatrixMethod(t, v) (LF ? fx_int(t, 1, v) : TDyMPFAOSetGmatrixMethod(t, v))
#define TDyMPFAOSetBoundaryConditionType(t, v) (LF ? fx_int(t, 2, v) : TDyMPFAOSetBoundaryConditionType(t, v))
#define TDySetConstantTensorPermeability(t, v) (LF ? fx_permtensor(t, v) : TDySetConstantTensorPermeability(t, v))
#define TDySetPorosityFunction(t, f) (LF ? fx_setfn(t, 0, fx_id(f)) : TDySetPorosityFunction(t, f))
#define TDySetResidualSaturationFunction(t, f) (LF ? fx_setfn(t, 1, fx_id(f)) : TDySetResidualSaturationFunction(t, f))
#define TDySetBoundaryPressureFunction(t, f) (LF ? fx_setfn(t, 2, fx_id(f)) : TDySetBoundaryPressureFunction(t, f))
#define TDySetBoundaryVelocityFunction(t, f) (LF ? fx_setfn(t, 3, fx_id(f)) : TDySetBoundaryVelocityFunction(t, f))
#define TDySetForcingFunction(t, f) (LF ? fx_setfn(t, 4, fx_id(f)) : TDySetForcingFunction(t, f))
#define TDySetEnergyForcingFunction(t, f) (LF ? fx_setfn(t, 5, fx_id(f)) : TDySetEnergyForcingFunction(t, f))
#define TDySetBoundaryPressureTypeFunction(t, f) (LF ? fx_setfn(t, 6, 2) : TDySetBoundaryPressureTypeFunction(t, f))
#define TDyRegisterFunction(n, f) (LF ? fx_register(n, fx_id(f)) : TDyRegisterFunction(n, f))
#define TDySelectForcingFunction(t, n) (LF ? fx_select(t, 4, n) : TDySelectForcingFunction(t, n))
#define TDySelectEnergyForcingFunction(t, n) (LF ? fx_select(t, 5, n) : TDySelectEnergyForcingFunction(t, n))
#define TDySelectBoundaryPressureFunction(t, n) (LF ? fx_select(t, 2, n) : TDySelectBoundaryPressureFunction(t, n))
#define TDySelectBoundaryVelocityFunction(t, n) (LF ? fx_select(t, 3, n) : TDySelectBoundaryVelocityFunction(t, n))
#define TDySetInitialCondition(t, v) (LF ? fx_vec(t, 0, v) : TDySetInitialCondition(t, v))
#define TDyGetInitialCondition(t, v) (LF ? fx_vec(t, 1, v) : TDyGetInitialCondition(t, v))
#define TDyPostSolve(t, v) (LF ? fx_vec(t, 2, v) : TDyPostSolve(t, v))
#define TDyGetLiquidSaturation(t, v) (LF ? fx_vec(t, 3, v) : TDyGetLiquidSaturation(t, v))
#define TDyGetLiquidMass(t, v) (LF ? fx_vec(t, 4, v) : TDyGetLiquidMass(t, v))
#define TDyGetLiquidPressure(t, v) (LF ? fx_vec(t, 5, v) : TDyGetLiquidPressure(t, v))
#define TDyOutputRegression(t, v) (LF ? fx_vec(t, 6, v) : TDyOutputRegression(t, v))
#define TDyGlobalToNatural(t, v, w) (LF ? fx_glonat(t, v, w) : TDyGlobalToNatural(t, v, w))
#define TDyCreatePrognosticVector(t, v) (LF ? fx_newvec(t, 0, v) : TDyCreatePrognosticVector(t, v))
#define TDyCreateDiagnosticVector(t, v) (LF ? fx_newvec(t, 1, v) : TDyCreateDiagnosticVector(t, v))
#define TDyCreateMatrix(t, v) (LF ? fx_newmat(t, v) : TDyCreateMatrix(t, v))
#define TDyGetDM(t, v) (LF ? fx_getdm(t, v) : TDyGetDM(t, v))
#define TDySetSNESFunction(s, t) (LF ? fx_solver(t, 0, s) : TDySetSNESFunction(s, t))
#define TDySetSNESJacobian(s, t) (LF ? fx_solver(t, 1, s) : TDySetSNESJacobian(s, t))
#define TDySetIFunction(s, t) (LF ? fx_solver(t, 2, s) : TDySetIFunction(s, t))
#define TDySetIJacobian(s, t) (LF ? fx_solver(t, 3, s) : TDySetIJacobian(s, t))
#define TDyUpdateState(t, u, n) (LF ? fx_updatestate(t, u, n) : TDyUpdateState(t, u, n))
