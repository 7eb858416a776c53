From dfa925d822d9324af43934aff5cbbf488948fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 01/59] fix: initialise blocking constraint variables before
 homotopy step

A step that reaches the end of the homotopy assigns no blocking constraint,
so its kind was read uninitialised when printing the iteration.
---
 src/QProblem.cpp  | 6 +++---
 src/QProblemB.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..714e6a8 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1525,9 +1525,9 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 	BooleanType Delta_bC_isZero, Delta_bB_isZero;
 
-	int_t BC_idx;
-	SubjectToStatus BC_status;
-	BooleanType BC_isBound;
+	int_t BC_idx = 0;
+	SubjectToStatus BC_status = ST_UNDEFINED;
+	BooleanType BC_isBound = BT_FALSE;
 
 	real_t homotopyLength;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..0c70665 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2441,8 +2441,8 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	returnValue returnvalue;
 	BooleanType Delta_bB_isZero;
 
-	int_t BC_idx;
-	SubjectToStatus BC_status;
+	int_t BC_idx = 0;
+	SubjectToStatus BC_status = ST_UNDEFINED;
 
 	real_t homotopyLength;
 
-- 
2.43.0


From 014b1617f873a570c3479cff037ddedb65684c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 02/59] fix: reset null space basis before refactorising with
 empty working set

Refactorising the projected Hessian while no bound or constraint is active
assumed the identity as null space basis, although earlier working set
changes may have left another one; the solver then reported wrong
solutions as optimal whenever Cholesky refactorisation was enabled.
---
 src/QProblem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 714e6a8..46bc91d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2043,7 +2043,11 @@ returnValue QProblem::computeProjectedCholesky( )
 
 	/* Revert to unprotected Cholesky decomposition */
 	if ( getNFX() + getNAC() == 0 )
+	{
+		/* which requires a trivial null space basis */
+		setupTQfactorisation( );
 		return QProblemB::computeCholesky( );
+	}
 
 	/* 1) Initialises R with all zeros. */
 	for( i=0; i<nV*nV; ++i )
-- 
2.43.0


From 23a58cf5bdde1785c5243105f80e4574f1e29442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 03/59] fix: do not try to regularise an identity Hessian
 during initialisation

With regularisation enabled (e.g. MPC options), initialisation of QPs with
identity Hessian failed whenever the initial working set was not empty.
---
 src/QProblem.cpp  | 4 ++--
 src/QProblemB.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 46bc91d..a3cfe1c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2141,8 +2141,8 @@ returnValue QProblem::setupInitialCholesky( )
 	returnValue returnvalueCholesky;
 
 	/* If regularisation shall be used, always regularise at beginning
-	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	 * if initial working set is not empty (never necessary for identity Hessian). */
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 0c70665..6a0dd11 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1449,8 +1449,8 @@ returnValue QProblemB::setupInitialCholesky( )
 	returnValue returnvalueCholesky;
 
 	/* If regularisation shall be used, always regularise at beginning
-	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	 * if initial working set is not empty (never necessary for identity Hessian). */
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
-- 
2.43.0


From 7e6d9e48327315d64c401d52762f844040fd158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 04/59] fix: avoid 0/0 ramping coefficient if there is only one
 bound

For a single variable the ramping coefficient became NaN, which switched
off the far bounds and let the solver report infeasible points as optimal.
---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a3cfe1c..f53bfbb 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5522,7 +5522,7 @@ returnValue QProblem::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nC; ++i )
 		{
-			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>(getMax((int_t)1,nRamp-1));
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lbA_new == 0 )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 6a0dd11..1df6455 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2176,7 +2176,7 @@ returnValue QProblemB::performRamping( )
 			default: break;
 		}
 
-		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1);
+		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(getMax((int_t)1,nV-1));
 		rampVal = (1.0-t) * ramp0 + t * ramp1;
 		bstat = bounds.getStatus(i);
 		if (bstat != ST_LOWER) { lb[i] = x[i] - rampVal; }
@@ -2212,7 +2212,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nV; ++i )
 		{
-			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(getMax((int_t)1,nRamp-1));
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lb_new == 0 )
-- 
2.43.0


From 53b2ffae0cc5d4d44ab3136084f3115b0990a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 05/59] fix: report infeasibility if bounds are inconsistent

Lower bounds exceeding upper bounds set the infeasibility flag but
returned SUCCESSFUL_RETURN from hotstart() and init().
---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f53bfbb..aed47cd 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -486,7 +486,7 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
 
 	++count;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1df6455..2bf3b63 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -450,7 +450,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
 
 	++count;
 
-- 
2.43.0


From 3fb3b608f8b94c1691b8585dc38246f9fd20005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 06/59] fix: do not impose a CPU time limit nobody asked for

When far bounds were moved, hot starts of bound constrained QPs passed the
time needed so far as limit for the rest of the solution process.
---
 src/QProblemB.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2bf3b63..6822162 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -458,7 +458,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	int_t nWSR_max = nWSR;
 	int_t nWSR_performed = 0;
 
-	real_t cputime_remaining = INFTY;
+	real_t cputime_remaining = INFTY, *pcputime_rem;
 	real_t cputime_needed = 0.0;
 
 	real_t farbound = options.initialFarBounds;
@@ -501,11 +501,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		{
 			nWSR = nWSR_max;
 			if ( cputime != 0 )
+			{
 				cputime_remaining = *cputime - cputime_needed;
+				pcputime_rem = &cputime_remaining;
+			}
+			else
+				pcputime_rem = 0;
 
 			/* Automatically call standard solveQP if regularisation is not active. */
 			returnvalue = solveRegularisedQP(	g_new,lb_new_far,ub_new_far,
-												nWSR,&cputime_remaining,nWSR_performed,
+												nWSR,pcputime_rem,nWSR_performed,
 												isFirstCall
 												);
 
-- 
2.43.0


From 569c701d4a0e8af2c79f821ce2842bf48ac2c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 07/59] fix: adapt constraint types and activities in hot
 starts

Constraint sides that appear, disappear or cease to be equalities in a hot
start were ignored; missing bound vectors were dereferenced.
---
 include/qpOASES/QProblem.hpp |   4 +-
 src/QProblem.cpp             | 165 +++++++++++++++++++++++++++++++----
 2 files changed, 151 insertions(+), 18 deletions(-)

diff --git a/include/qpOASES/QProblem.hpp b/include/qpOASES/QProblem.hpp
index 8e053f9..16ca5e2 100644
--- a/include/qpOASES/QProblem.hpp
+++ b/include/qpOASES/QProblem.hpp
@@ -517,8 +517,8 @@ class QProblem : public QProblemB
 										);
 
 
-		/** Update activities in a hot start if some of the bounds have
-			become infinity or if variables have become fixed.  */
+		/** Update activities in a hot start if some of the (constraints') bounds have
+			become (in)finite or if variables or constraints have become (un)fixed.  */
 		/*	\return SUCCESSFUL_RETURN \n
 					RET_HOTSTART_FAILED */
 		virtual returnValue updateActivitiesForHotstart( const real_t* const lb_new,	/**< New lower bounds. */
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index aed47cd..96492ac 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1856,7 +1856,7 @@ returnValue QProblem::solveRegularisedQP(	const real_t* const g_new,
 }
 
 /*
- *	s e t u p S u b j e c t T o T y p e
+ *	u p d a t e A c t i v i t i e s F o r H o t s t a r t
  */
 returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, const real_t* const ub_new,
 												   const real_t* const lbA_new, const real_t* const ubA_new
@@ -1864,6 +1864,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 {
 	int_t i;
 	int_t nV = getNV( );
+	int_t nC = getNC( );
 
 	returnValue returnvalue;
 
@@ -1872,15 +1873,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
-		{
-			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
-			if ( returnvalue != SUCCESSFUL_RETURN )
-				return returnvalue;
-			g[i] -= y[i];
-			y[i] = 0.0;
-		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		/* a missing bound vector stands for infinite bounds */
+		BooleanType isLowerFinite = ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) ) ? BT_TRUE : BT_FALSE;
+		BooleanType isUpperFinite = ( ( ub_new != 0 ) && ( ub_new[i] <  INFTY ) ) ? BT_TRUE : BT_FALSE;
+
+		if ( ( ( isLowerFinite == BT_FALSE ) && ( bounds.getStatus(i) == ST_LOWER ) ) ||
+			 ( ( isUpperFinite == BT_FALSE ) && ( bounds.getStatus(i) == ST_UPPER ) ) )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1888,14 +1886,14 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( ( isLowerFinite == BT_TRUE ) && ( lb[i] <= -INFTY ) )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ( isUpperFinite == BT_TRUE ) && ( ub[i] >= INFTY ) )
 		{
-			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
+			/* Now an upper bound has become finite.  To avoid numerical issues, adjust ub */
 			ub[i] = x[i] + options.boundRelaxation;
 		}
 	}
@@ -1916,14 +1914,149 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 					if ( returnvalue != SUCCESSFUL_RETURN )
 						return returnvalue;
 				}
-				/* AW: Check: This allows to have variables that are
-				   equalities to be in the set of free variables. */
+				else
+				{
+					/* An inactive bound must not be ignored by the ratio tests. */
+					bounds.setType( i,ST_BOUNDED );
+				}
+			}
+		}
+		else
+		{
+			/* A formerly implicitly fixed variable might have a multiplier of wrong sign. */
+			if ( lb[i] > ub[i] - options.boundTolerance )
+			{
+				if ( ( ( bounds.getStatus(i) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+					 ( ( bounds.getStatus(i) == ST_UPPER ) && ( y[i] > 0.0 ) ) )
+				{
+					if ( bounds.flipFixed( i ) != SUCCESSFUL_RETURN )
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+					lb[i] = x[i];
+					ub[i] = x[i];
+				}
+			}
+		}
+	}
+
+
+	/* Do the same for the constraints. */
+	BooleanType noLower = BT_TRUE;
+	BooleanType noUpper = BT_TRUE;
+	real_t* Ax_cur = 0;
+
+	for ( i=0; i<nC; i++ )
+	{
+		BooleanType isLowerFinite = ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) ) ? BT_TRUE : BT_FALSE;
+		BooleanType isUpperFinite = ( ( ubA_new != 0 ) && ( ubA_new[i] <  INFTY ) ) ? BT_TRUE : BT_FALSE;
+
+		if ( isLowerFinite == BT_TRUE )
+			noLower = BT_FALSE;
+		if ( isUpperFinite == BT_TRUE )
+			noUpper = BT_FALSE;
+
+		if ( constraints.getType(i) == ST_DISABLED )
+			continue;
+
+		/* Remove constraints that were active at a side that has become infinite. */
+		if ( ( ( isLowerFinite == BT_FALSE ) && ( constraints.getStatus(i) == ST_LOWER ) ) ||
+			 ( ( isUpperFinite == BT_FALSE ) && ( constraints.getStatus(i) == ST_UPPER ) ) )
+		{
+			returnvalue = removeConstraint( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
+			if ( returnvalue != SUCCESSFUL_RETURN )
+			{
+				delete[] Ax_cur;
+				return returnvalue;
+			}
+			y[nV+i] = 0.0;
+
+			/* reestablish stationarity */
+			if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+			{
+				delete[] Ax_cur;
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+			}
+		}
+
+		/* Determine type of constraint (equalities only lose this property here as
+		 * an inactive but tight constraint must not become an inactive equality). */
+		if ( ( isLowerFinite == BT_FALSE ) && ( isUpperFinite == BT_FALSE ) && ( options.enableFarBounds == BT_FALSE ) )
+		{
+			constraints.setType( i,ST_UNBOUNDED );
+			lbA[i] = -INFTY;
+			ubA[i] =  INFTY;
+			continue;
+		}
+
+		if ( constraints.getType(i) == ST_UNBOUNDED )
+		{
+			/* constraint products are not maintained for unbounded constraints */
+			if ( Ax_cur == 0 )
+			{
+				Ax_cur = new real_t[nC];
+				if ( constraintProduct == 0 )
+				{
+					A->times( 1, 1.0, x, nV, 0.0, Ax_cur, nC );
+				}
+				else
+				{
+					for ( int_t j=0; j<nC; j++ )
+						if ( (*constraintProduct)( j,x, &(Ax_cur[j]) ) != 0 )
+						{
+							delete[] Ax_cur;
+							return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
+						}
+				}
+			}
+			constraints.setType( i,ST_BOUNDED );
+			Ax[i]   = Ax_cur[i];
+			Ax_l[i] = Ax[i] - lbA[i];
+			Ax_u[i] = ubA[i] - Ax[i];
+		}
+
+		if ( ( isLowerFinite == BT_TRUE ) && ( lbA[i] <= -INFTY ) )
+		{
+			lbA[i]  = Ax[i] - options.boundRelaxation;
+			Ax_l[i] = options.boundRelaxation;
+		}
+		if ( ( isUpperFinite == BT_TRUE ) && ( ubA[i] >= INFTY ) )
+		{
+			ubA[i]  = Ax[i] + options.boundRelaxation;
+			Ax_u[i] = options.boundRelaxation;
+		}
+
+		if ( ( constraints.getType(i) == ST_EQUALITY ) &&
+			 ( ( isLowerFinite == BT_FALSE ) || ( isUpperFinite == BT_FALSE ) ||
+			   ( lbA_new[i] <= ubA_new[i] - options.boundTolerance ) || ( constraints.getStatus(i) == ST_INACTIVE ) ) )
+		{
+			constraints.setType( i,ST_BOUNDED );
+		}
+
+		if ( constraints.getType(i) != ST_EQUALITY )
+		{
+			/* A former equality might have a multiplier of wrong sign. */
+			if ( lbA[i] > ubA[i] - options.boundTolerance )
+			{
+				if ( ( ( constraints.getStatus(i) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) ||
+					 ( ( constraints.getStatus(i) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) )
+				{
+					if ( constraints.flipFixed( i ) != SUCCESSFUL_RETURN )
+					{
+						delete[] Ax_cur;
+						return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
+					}
+					lbA[i]  = Ax[i];
+					ubA[i]  = Ax[i];
+					Ax_l[i] = 0.0;
+					Ax_u[i] = 0.0;
+				}
 			}
 		}
 	}
 
+	delete[] Ax_cur;
 
-	// AW TODO: We could also implement something here for the constraints
+	constraints.setNoLower( noLower );
+	constraints.setNoUpper( noUpper );
 
 	return SUCCESSFUL_RETURN;
 }
-- 
2.43.0


From bbed80127770a74027a29fd1ecf9db18b1bdefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 08/59] fix: adapt bound types and activities in hot starts of
 QProblemB

---
 include/qpOASES/QProblemB.hpp | 11 +++++
 src/QProblemB.cpp             | 88 ++++++++++++++++++++++++++++++++++-
 2 files changed, 97 insertions(+), 2 deletions(-)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 41eeb9f..e95c6f8 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -473,6 +473,17 @@ class QProblemB
 												const real_t* const ub_new	/**< New upper bounds. */
 												);
 
+		/** Update activities in a hot start if some of the bounds have
+		 *  become (in)finite or if variables are no longer fixed.
+		 *	\return SUCCESSFUL_RETURN \n
+					RET_SETUPSUBJECTTOTYPE_FAILED \n
+					RET_REMOVEBOUND_FAILED \n
+					RET_ADDBOUND_FAILED \n
+					RET_MOVING_BOUND_FAILED */
+		returnValue updateActivitiesForHotstart(	const real_t* const lb_new,	/**< New lower bounds. */
+													const real_t* const ub_new	/**< New upper bounds. */
+													);
+
 		/** Computes the Cholesky decomposition of the (simply projected) Hessian
 		 *  (i.e. R^T*R = Z^T*H*Z). It only works in the case where Z is a simple
 		 *  projection matrix!
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 6822162..a712d43 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1280,6 +1280,82 @@ returnValue QProblemB::determineHessianType( )
 }
 
 
+/*
+ *	u p d a t e A c t i v i t i e s F o r H o t s t a r t
+ */
+returnValue QProblemB::updateActivitiesForHotstart( const real_t* const lb_new, const real_t* const ub_new )
+{
+	int_t i;
+	int_t nV = getNV( );
+
+	returnValue returnvalue;
+
+	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUPSUBJECTTOTYPE_FAILED );
+
+	for ( i=0; i<nV; ++i )
+	{
+		/* a missing bound vector stands for infinite bounds */
+		BooleanType isLowerFinite = ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) ) ? BT_TRUE : BT_FALSE;
+		BooleanType isUpperFinite = ( ( ub_new != 0 ) && ( ub_new[i] <  INFTY ) ) ? BT_TRUE : BT_FALSE;
+
+		/* remove bounds that were active but are now infinite */
+		if ( ( ( isLowerFinite == BT_FALSE ) && ( bounds.getStatus(i) == ST_LOWER ) ) ||
+			 ( ( isUpperFinite == BT_FALSE ) && ( bounds.getStatus(i) == ST_UPPER ) ) )
+		{
+			returnvalue = removeBound( i,BT_TRUE );
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return returnvalue;
+			g[i] -= y[i];
+			y[i] = 0.0;
+
+			/* bound might have been flipped to the other side */
+			if ( ( ( isLowerFinite == BT_FALSE ) && ( bounds.getStatus(i) == ST_LOWER ) ) ||
+				 ( ( isUpperFinite == BT_FALSE ) && ( bounds.getStatus(i) == ST_UPPER ) ) )
+			{
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+			}
+		}
+
+		/* adjust bounds that have become finite */
+		if ( ( isLowerFinite == BT_TRUE ) && ( lb[i] <= -INFTY ) )
+			lb[i] = x[i] - options.boundRelaxation;
+		if ( ( isUpperFinite == BT_TRUE ) && ( ub[i] >= INFTY ) )
+			ub[i] = x[i] + options.boundRelaxation;
+
+		if ( bounds.getType( i ) == ST_EQUALITY )
+		{
+			/* implicitly fixed variables need to be fixed as they are ignored by the ratio tests */
+			lb[i] = x[i];
+			ub[i] = x[i];
+			if ( bounds.getStatus( i ) == ST_INACTIVE )
+			{
+				returnvalue = addBound( i,ST_LOWER,BT_TRUE );
+				if ( returnvalue != SUCCESSFUL_RETURN )
+					return returnvalue;
+			}
+		}
+		else
+		{
+			/* a formerly implicitly fixed variable might have a multiplier of wrong sign */
+			if ( lb[i] > ub[i] - options.boundTolerance )
+			{
+				if ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+					 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) )
+				{
+					if ( bounds.flipFixed( i ) != SUCCESSFUL_RETURN )
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+					lb[i] = x[i];
+					ub[i] = x[i];
+				}
+			}
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  *	s e t u p S u b j e c t T o T y p e
  */
@@ -2457,8 +2533,16 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 
 	/* 2) Update type of bounds, e.g. a formerly implicitly fixed
 	 *    variable might have become a normal one etc. */
-	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_HOTSTART_FAILED );
+	status = QPS_PERFORMINGHOMOTOPY;
+	returnvalue = updateActivitiesForHotstart( lb_new,ub_new );
+	if ( returnvalue != SUCCESSFUL_RETURN )
+	{
+		delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
+		delete[] delta_ub; delete[] delta_lb; delete[] delta_g;
+
+		THROWERROR( RET_HOTSTART_FAILED );
+		return returnvalue;
+	}
 
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
-- 
2.43.0


From a5fbe22b19e828126df0130b3e236f0f6707f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 09/59] fix: keep factorisation and multipliers valid for
 working set guesses in hot starts of QProblemB

---
 src/QProblemB.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a712d43..d6eed47 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3094,32 +3094,36 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 		/* 2) Setup guessed working set afresh. */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,BT_TRUE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-		/* 3) Calculate Cholesky decomposition. */
-		if ( computeCholesky( ) != SUCCESSFUL_RETURN )
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
 	}
 	else
 	{
 		/* ... WITHOUT REFACTORISATION: */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,BT_FALSE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 
+	/* Calculate Cholesky decomposition (not updated while preparing an auxiliary QP). */
+	if ( computeCholesky( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds. */
+	/* 1) Ensure that dual variable is zero for free bounds
+	 *    (or if it does not have the right sign for the guessed working set). */
 	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) )
 			y[i] = 0.0;
 
 	/* 2) Setup gradient and bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	if ( setupAuxiliaryQPbounds( BT_FALSE ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	return SUCCESSFUL_RETURN;
 }
-- 
2.43.0


From 88a31eb095e2d8b0858beda7812206492a12cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 10/59] fix: keep working sets and multipliers valid for
 guesses in hot starts

Guesses aliasing the current working set were destroyed, active constraints
survived a trivial guess, and multipliers could keep a wrong sign.
---
 src/QProblem.cpp | 55 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 96492ac..18af058 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2535,7 +2535,7 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			break;
 		}
 
-	if (WSisTrivial == BT_TRUE)
+	if ( (WSisTrivial == BT_TRUE) && (setupAfresh == BT_TRUE) )
 	{
 		for (i = 0; i < nV; i++)
 			if (bounds.getStatus(i) == ST_INACTIVE)
@@ -2570,11 +2570,17 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 		{
 			if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( auxiliaryConstraints->getStatus( i ) != ST_LOWER ) )
 				if ( removeConstraint( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 
 			if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( auxiliaryConstraints->getStatus( i ) != ST_UPPER ) )
 				if ( removeConstraint( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 		}
 
 		/* 2) Remove all active bounds that shall be inactive AND
@@ -2583,11 +2589,17 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 		{
 			if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( auxiliaryBounds->getStatus( i ) != ST_LOWER ) )
 				if ( removeBound( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 
 			if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( auxiliaryBounds->getStatus( i ) != ST_UPPER ) )
 				if ( removeBound( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 		}
 	}
 
@@ -2606,7 +2618,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
             // assert ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE );
 			/* No check for linear independence necessary. */
 			if ( addBound( i,ST_LOWER,updateCholesky ) != SUCCESSFUL_RETURN ) // was auxiliaryBounds->getStatus( i )
+			{
+				options.enableFullLITests = was_fulli;
 				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+			}
 		}
 	}
 
@@ -2624,7 +2639,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			if ( addConstraint_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
 			{
 				if ( addConstraint( i,ST_LOWER,updateCholesky ) != SUCCESSFUL_RETURN )  // was auxiliaryConstraints->getStatus( i )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 			}
 			else
 			{
@@ -2645,7 +2663,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			if ( addBound_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
 			{
 				if ( addBound( i,auxiliaryBounds->getStatus( i ),updateCholesky ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 			}
 		}
 	}
@@ -2663,7 +2684,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 				if ( addConstraint_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
 				{
 					if ( addConstraint( i,auxiliaryConstraints->getStatus( i ),updateCholesky ) != SUCCESSFUL_RETURN )
+					{
+						options.enableFullLITests = was_fulli;
 						return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+					}
 				}
 			}
 		}
@@ -5806,11 +5830,15 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 	if ( ( guessedBounds == &bounds ) && ( guessedConstraints == &constraints ) )
 		return SUCCESSFUL_RETURN;
 
+	/* make copies as one of the guesses might be the current working set itself */
+	Bounds      auxiliaryBounds( *guessedBounds );
+	Constraints auxiliaryConstraints( *guessedConstraints );
+
 	status = QPS_PREPARINGAUXILIARYQP;
 
 
 	/* I) SETUP WORKING SET ... */
-	if ( shallRefactorise( guessedBounds,guessedConstraints ) == BT_TRUE )
+	if ( shallRefactorise( &auxiliaryBounds,&auxiliaryConstraints ) == BT_TRUE )
 	{
 		/* ... WITH REFACTORISATION: */
 		/* 1) Reset bounds/constraints ... */
@@ -5832,8 +5860,8 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* 3) Setup guessed working sets afresh. */
-		if ( setupAuxiliaryWorkingSet( guessedBounds,guessedConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* 4) Computes Cholesky decomposition of projected Hessian
 		 *    This now handles all special cases (no active bounds/constraints, no nullspace) */
@@ -5843,24 +5871,29 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 	else
 	{
 		/* ... WITHOUT REFACTORISATION: */
-		if ( setupAuxiliaryWorkingSet( guessedBounds,guessedConstraints,BT_FALSE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_FALSE ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints. */
+	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints
+	 *    (or if it does not have the right sign for the guessed working set). */
 	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) )
 			y[i] = 0.0;
 
 	for ( i=0; i<nC; ++i )
-		if ( constraints.getStatus( i ) == ST_INACTIVE )
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) ||
+			 ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) )
 			y[nV+i] = 0.0;
 
 	/* 2) Setup gradient and (constraints') bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	A->times(1, 1.0, x, nV, 0.0, Ax, nC);
 	for ( j=0; j<nC; ++j )
@@ -5871,7 +5904,7 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 	/* (also sets Ax_l and Ax_u) */
 	if ( setupAuxiliaryQPbounds( 0,0,BT_FALSE ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	return SUCCESSFUL_RETURN;
 }
-- 
2.43.0


From 632d7de20be9351dd78d595c5934062c43d657ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 11/59] fix: keep working set, multipliers and ownership valid
 when matrices change

---
 src/SQProblem.cpp | 129 +++++++++++++++++++++++++---------------------
 1 file changed, 69 insertions(+), 60 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..5ad1d88 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -231,7 +231,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+	if ( ( nC > 0 ) && ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] A_new;
 		delete[] H_new;
@@ -353,6 +353,15 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
 	}
 
+	/* consistency checks (before anything is changed) */
+	if ( ( nC > 0 ) && ( A_new == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	/* if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY),
+	   otherwise abort */
+	if ( ( H_new == 0 ) && ( H != 0 ) )
+		return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+
 	status = QPS_PREPARINGAUXILIARYQP;
 
 
@@ -362,9 +371,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 	/*    Firstly, shift by -A'*x_opt and ... */
 	if ( nC > 0 )
 	{
-		if ( A_new == 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-
 		for ( i=0; i<nC; ++i )
 		{
 			lbA[i] = -Ax_l[i];
@@ -400,29 +406,18 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		if ( determineHessianType( ) != SUCCESSFUL_RETURN )
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
-		/* b) Regularise new Hessian if necessary. */
+		/* b) Regularise new Hessian if necessary (an identity never needs to be). */
+		BooleanType wasRegularised = usingRegularisation( );
+		regVal = 0.0; /* reset previous regularisation */
+
 		if ( ( hessianType == HST_ZERO ) ||
 			 ( hessianType == HST_SEMIDEF ) ||
-			 ( usingRegularisation( ) == BT_TRUE ) )
+			 ( ( wasRegularised == BT_TRUE ) && ( hessianType != HST_IDENTITY ) ) )
 		{
-			regVal = 0.0; /* reset previous regularisation */
-
 			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
-	else
-	{
-		/* if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY),
-		   otherwise abort */
-		if ( H != 0 )
-			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
-	}
-
-	/* 3) Setup QP gradient. */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
 
 	/* II) SETUP WORKING SETS AND MATRIX FACTORISATIONS: */
 	/* 1) Make a copy of current bounds/constraints ... */
@@ -451,8 +446,9 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
         bounds.init( nV );
         constraints.init( nC );
 
-        /*    ... and set them up afresh. */
-        if ( setupSubjectToType(lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
+        /*    ... and set them up afresh (types are adapted to the new
+         *    bound vectors by the hotstart that follows). */
+        if ( setupSubjectToType( ) != SUCCESSFUL_RETURN )
             return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
         if ( bounds.setupAllFree( ) != SUCCESSFUL_RETURN )
@@ -465,27 +461,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
         if ( setupTQfactorisation( ) != SUCCESSFUL_RETURN )
             return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
-		// check for equalities that have become bounds ...
-		for (int_t ii = 0; ii < nC; ++ii) {
-			if (oldConstraints.getType (ii) == ST_EQUALITY && constraints.getType (ii) == ST_BOUNDED) {
-				if (oldConstraints.getStatus (ii) == ST_LOWER && y[nV+ii] < 0.0)
-					oldConstraints.setStatus (ii, ST_UPPER);
-				else if (oldConstraints.getStatus (ii) == ST_UPPER && y[nV+ii] > 0.0)
-					oldConstraints.setStatus (ii, ST_LOWER);
-			}
-		}
-
-		// ... and do the same also for the bounds!
-		for (int_t ii = 0; ii < nV; ++ii) {
-			if (oldBounds.getType(ii) == ST_EQUALITY
-					&& bounds.getType(ii) == ST_BOUNDED) {
-				if (oldBounds.getStatus(ii) == ST_LOWER && y[ii] < 0.0)
-					oldBounds.setStatus(ii, ST_UPPER);
-				else if (oldBounds.getStatus(ii) == ST_UPPER && y[ii] > 0.0)
-					oldBounds.setStatus(ii, ST_LOWER);
-			}
-		}
-
         /* 3) Setup old working sets afresh (updating TQ factorisation). */
         if ( setupAuxiliaryWorkingSet( &oldBounds,&oldConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
             return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
@@ -500,14 +475,37 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
             break;
     }
 
-    /* adjust lb/ub if we changed the old active set in the second try
-     */
-    if (n_try > 0) {
-		// as per setupAuxiliaryQPbounds assumptions ... oh the troubles
-		for (int_t ii = 0; ii < nC; ++ii)
-			Ax_l[ii] = Ax_u[ii] = Ax[ii];
-        setupAuxiliaryQPbounds( &bounds, &constraints, BT_FALSE );
-	}
+    if ( returnvalue != SUCCESSFUL_RETURN )
+        return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+
+	/* III) SETUP AUXILIARY QP DATA: */
+	/* 1) Members that had to leave the working set must not have a multiplier
+	 *    (nor may those of the working set have one of wrong sign unless they are equalities). */
+	for ( i=0; i<nV; ++i )
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+				 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
+			y[i] = 0.0;
+
+	for ( i=0; i<nC; ++i )
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) ||
+				 ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) ) ) )
+			y[nV+i] = 0.0;
+
+	/* 2) Setup QP gradient ... */
+	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* 3) ... and (constraints') bound vectors (also sets Ax_l and Ax_u). */
+	for ( i=0; i<nC; ++i )
+		Ax_l[i] = Ax_u[i] = Ax[i];
+
+	if ( setupAuxiliaryQPbounds( 0,0,BT_FALSE ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	status = QPS_AUXILIARYQPSOLVED;
 
@@ -528,14 +526,12 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 	DenseMatrix *dA = 0;
 	SymDenseMat *sH = 0;
 
-	if ( A_new != 0 )
-	{
-		dA = new DenseMatrix(nC, nV, nV, (real_t*) A_new);
-	}
-	else
+	if ( nC > 0 )
 	{
-		if ( nC > 0 )
+		if ( A_new == 0 )
 			return THROWERROR( RET_INVALID_ARGUMENTS );
+
+		dA = new DenseMatrix(nC, nV, nV, (real_t*) A_new);
 	}
 
 	if ( H_new != 0 )
@@ -543,9 +539,22 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
-	if ( H_new != 0 )
-		freeHessian = BT_TRUE;
-	freeConstraintMatrix = BT_TRUE;
+	/* Either take over ownership of the matrices or dispose of them. */
+	if ( sH != 0 )
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
+			delete sH;
+	}
+
+	if ( dA != 0 )
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
 
 	return returnvalue;
 }
-- 
2.43.0


From 27efafab56dea0d1bef035f012153518bdc2342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:12 +0000
Subject: [PATCH 12/59] fix: do not access index list at position -1 when
 looking up small numbers

---
 src/Indexlist.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..0982142 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -157,6 +157,11 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+
+	/* given number is smaller than all numbers contained in the list */
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -188,9 +193,13 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
-	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
+	if ( idx < 0 )
+		return SUCCESSFUL_RETURN;
+
+	int_t iSidx = iSort[idx];
+
 	if ( number[iSidx] != removenumber )
 		return SUCCESSFUL_RETURN;
 
@@ -220,6 +229,9 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
+
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From 342c995abd4809de844605cdc65978dafbfe224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 13/59] fix: regularise a copy of the Hessian instead of the
 caller's matrix

---
 src/QProblemB.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index d6eed47..7d5f19f 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2099,10 +2099,22 @@ returnValue QProblemB::regulariseHessian( )
 		}
 		else
 		{
-			regVal = H->getNorm() * options.epsRegularisation;
+			/* Regularise a copy as Hessian might belong to the user. */
+			SymmetricMatrix* H_reg = H->duplicateSym( );
+			real_t newRegVal = H->getNorm() * options.epsRegularisation;
 
-			if ( H->addToDiag( regVal ) == RET_NO_DIAGONAL_AVAILABLE )
+			if ( H_reg->addToDiag( newRegVal ) != SUCCESSFUL_RETURN )
+			{
+				delete H_reg;
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
+			}
+
+			if ( freeHessian == BT_TRUE )
+				delete H;
+
+			H = H_reg;
+			freeHessian = BT_TRUE;
+			regVal = newRegVal;
 		}
 
 		THROWINFO( RET_USING_REGULARISATION );
-- 
2.43.0


From a06a0d9d3407047753ba32c069803cb5777b33b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 14/59] fix: honour leading dimensions, index lists and
 ownership in matrix classes

---
 src/Matrices.cpp | 132 ++++++++++++++++++++++-------------------------
 1 file changed, 63 insertions(+), 69 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..2a3416b 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -113,19 +113,8 @@ void DenseMatrix::free( )
 
 Matrix *DenseMatrix::duplicate( ) const
 {
-	DenseMatrix *dupl = 0;
-
-	if ( needToFreeMemory( ) == BT_TRUE )
-	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
-		dupl->doFreeMemory( );
-	}
-	else
-	{
-		dupl = new DenseMatrix(nRows, nCols, nCols, val);
-	}
+	DenseMatrix *dupl = new DenseMatrix( nRows,nCols,nCols,full( ) );
+	dupl->doFreeMemory( );
 
 	return dupl;
 }
@@ -155,7 +144,15 @@ BooleanType DenseMatrix::isDiag( ) const
 real_t DenseMatrix::getNorm(	int_t type
 								) const
 {
-	return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+	if ( leaDim == nCols )
+		return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+
+	/* skip entries that do not belong to the matrix */
+	real_t* v = full( );
+	real_t norm = REFER_NAMESPACE_QPOASES getNorm( v,nCols*nRows,type );
+	delete[] v;
+
+	return norm;
 }
 
 
@@ -306,7 +303,7 @@ returnValue DenseMatrix::times(	int_t xN, real_t alpha, const real_t* x, int_t x
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -320,7 +317,7 @@ returnValue DenseMatrix::transTimes( int_t xN, real_t alpha, const real_t* x, in
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -431,7 +428,7 @@ returnValue DenseMatrix::times(	const Indexlist* const irows, const Indexlist* c
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -587,15 +584,23 @@ returnValue DenseMatrix::writeToFile( FILE* output_file, const char* prefix ) co
 
 real_t* DenseMatrix::full() const
 {
+	int_t i;
 	real_t* v = new real_t[nRows*nCols];
-	memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+
+	for (i = 0; i < nRows; i++)
+		memcpy( &(v[i*nCols]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
+
 	return v;
 }
 
 
 returnValue DenseMatrix::print( const char* name ) const
 {
-	return REFER_NAMESPACE_QPOASES print( val,nRows,nCols,name );
+	real_t* tmp = this->full();
+	returnValue retVal = REFER_NAMESPACE_QPOASES print( tmp,nRows,nCols,name );
+	delete[] tmp;
+
+	return retVal;
 }
 
 
@@ -609,19 +614,8 @@ Matrix *SymDenseMat::duplicate( ) const
 SymmetricMatrix *SymDenseMat::duplicateSym( ) const
 {
 	/* "same" as duplicate() in DenseMatrix */
-	SymDenseMat *dupl = 0;
-
-	if ( needToFreeMemory( ) == BT_TRUE )
-	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
-		dupl->doFreeMemory( );
-	}
-	else
-	{
-		dupl = new SymDenseMat(nRows, nCols, nCols, val);
-	}
+	SymDenseMat *dupl = new SymDenseMat( nRows,nCols,nCols,full( ) );
+	dupl->doFreeMemory( );
 
 	return dupl;
 }
@@ -850,9 +844,7 @@ returnValue SparseMatrix::getRowNorm( real_t* norm, int_t type ) const
 			break;
 		case 1:
 			for ( j=0; j < nCols; ++j ) {
-				// FIXME please add guarding or fix indent for "for loop" to
-				//       remove compile warnings
-				for (i = jc[j]; i < jc[j+1]; i++);
+				for (i = jc[j]; i < jc[j+1]; i++)
 				  norm[ir[i]] += getAbs( val[i] );
 			}
 			break;
@@ -900,13 +892,13 @@ returnValue SparseMatrix::getRow( int_t rNum, const Indexlist* const icols, real
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? alpha*val[i] : 0.0;
@@ -962,6 +954,9 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 {
 	int_t i, j, k, l;
 
+	if ( ( irn == 0 ) && ( ( jcn != 0 ) || ( avals != 0 ) ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	// Compute the "inverse" of the irows->number array
 	// TODO: Ideally this should be a part of Indexlist
 	int_t* rowNumberInv = new int_t[nRows];
@@ -975,8 +970,6 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 	{
 		if (irn == 0)
 		{
-			if (jcn != 0 || avals != 0)
-				return THROWERROR( RET_INVALID_ARGUMENTS );
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1011,8 +1004,6 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 	{
 		if (irn == 0)
 		{
-			if (jcn != 0 || avals != 0)
-				return THROWERROR( RET_INVALID_ARGUMENTS );
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1241,8 +1232,8 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 					for (i = jc[col]; i < jc[col+1]; i++)
 						for (k=0; k<xN; k++)
 							ytmp[k*yfullLength+ir[i]] += val[i] * xcols[k];
-				delete [] xcols;
 			}
+			delete [] xcols;
 		}
 	}
 
@@ -1274,15 +1265,15 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 		else if (isEqual( beta, 1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, -1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, 1.0 ) == BT_FALSE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[irows->number[j]+k*yLD];
 	}
 
 	delete [] ytmp;
@@ -1350,11 +1341,12 @@ returnValue SparseMatrix::addToDiag( real_t alpha )
 	{
 		for (i = 0; i < nRows && i < nCols; i++)
 		{
-			if (ir[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ( ( jd[i] >= jc[i+1] ) || ( ir[jd[i]] != i ) )
 				return RET_NO_DIAGONAL_AVAILABLE;
 		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
@@ -1488,14 +1480,14 @@ Matrix *SparseMatrixRow::duplicate( ) const
 	dupl->ic = new sparse_int_t[length];
 	dupl->val = new real_t[length];
 
-	for (i = 0; i < length; i++) dupl->jr[i] = jr[i];
-	for (i = 0; i <= nCols; i++) dupl->ic[i] = ic[i];
+	for (i = 0; i <= nRows; i++) dupl->jr[i] = jr[i];
+	for (i = 0; i < length; i++) dupl->ic[i] = ic[i];
 	for (i = 0; i < length; i++) dupl->val[i] = val[i];
 
 	if ( jd != 0 )
 	{
 		dupl->jd = new sparse_int_t[nRows];
-		for (i = 0; i < nCols; i++) dupl->jd[i] = jd[i];
+		for (i = 0; i < nRows; i++) dupl->jd[i] = jd[i];
 	}
 	else
 		dupl->jd = 0;
@@ -1660,19 +1652,19 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 	else
 	{
 		if ( isEqual(alpha,1.0) == BT_TRUE )
-			for (j = 0; j < nCols; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? alpha*val[i] : 0.0;
@@ -1879,7 +1871,7 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1914,10 +1906,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			if ( isEqual(alpha,1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1930,10 +1922,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else if ( isEqual(alpha,-1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1946,10 +1938,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -2050,11 +2042,12 @@ returnValue SparseMatrixRow::addToDiag( real_t alpha )
 	{
 		for (i = 0; i < nRows && i < nCols; i++)
 		{
-			if (ic[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ( ( jd[i] >= jr[i+1] ) || ( ic[jd[i]] != i ) )
 				return RET_NO_DIAGONAL_AVAILABLE;
 		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
@@ -2154,8 +2147,9 @@ returnValue SymSparseMat::bilinear( const Indexlist* const icols,
 		return THROWERROR( RET_DIAGONAL_NOT_INITIALISED );
 
 	/* clear output */
-	for (i = 0; i < xN*xN; i++)
-		y[i] = 0.0;
+	for (i = 0; i < xN; i++)
+		for (j = 0; j < xN; j++)
+			y[i*yLD+j] = 0.0;
 
 	/* compute lower triangle */
 	for (l = 0; l < icols->length; l++)
-- 
2.43.0


From b86df644bb120907484dde01d57dc5e868307255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 15/59] fix: reject impossible working set moves and copy
 flipper dimensions

---
 include/qpOASES/Indexlist.ipp |  6 +++++-
 src/Bounds.cpp                | 15 +++++++++++++++
 src/Constraints.cpp           | 15 +++++++++++++++
 src/Flipper.cpp               |  3 +++
 src/SubjectTo.cpp             |  4 ++++
 5 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/qpOASES/Indexlist.ipp b/include/qpOASES/Indexlist.ipp
index 178252f..6c239a3 100644
--- a/include/qpOASES/Indexlist.ipp
+++ b/include/qpOASES/Indexlist.ipp
@@ -47,7 +47,7 @@ BEGIN_NAMESPACE_QPOASES
 inline int_t Indexlist::getNumber( int_t physicalindex ) const
 {
 	/* consistency check */
-	if ( ( physicalindex < 0 ) || ( physicalindex > length ) )
+	if ( ( physicalindex < 0 ) || ( physicalindex >= length ) )
 		return -RET_INDEXLIST_OUTOFBOUNDS;
 
 	return number[physicalindex];
@@ -68,6 +68,10 @@ inline int_t Indexlist::getLength( ) const
  */
 inline int_t Indexlist::getLastNumber( ) const
 {
+	/* consistency check */
+	if ( length <= 0 )
+		return -RET_INDEXLIST_OUTOFBOUNDS;
+
 	return number[length-1];
 }
 
diff --git a/src/Bounds.cpp b/src/Bounds.cpp
index e10faed..8a71ae0 100644
--- a/src/Bounds.cpp
+++ b/src/Bounds.cpp
@@ -190,6 +190,9 @@ returnValue Bounds::moveFixedToFree( int_t number )
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	if ( this->getFixed( )->isMember( number ) == BT_FALSE )
+		return THROWERROR( RET_MOVING_BOUND_FAILED );
+
 	/* Move index from indexlist of fixed variables to that of free ones. */
 	if ( this->removeIndex( this->getFixed( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -211,6 +214,10 @@ returnValue Bounds::moveFreeToFixed(	int_t number, SubjectToStatus _status
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	if ( ( this->getFree( )->isMember( number ) == BT_FALSE ) ||
+		 ( ( _status != ST_LOWER ) && ( _status != ST_UPPER ) ) )
+		return THROWERROR( RET_MOVING_BOUND_FAILED );
+
 	/* Move index from indexlist of free variables to that of fixed ones. */
 	if ( this->removeIndex( this->getFree( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -276,6 +283,10 @@ returnValue Bounds::shift(	int_t offset )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 
+	for( i=0; i<n; ++i )
+		if ( ( getStatus( i ) != ST_INACTIVE ) && ( getStatus( i ) != ST_LOWER ) && ( getStatus( i ) != ST_UPPER ) )
+			return THROWERROR( RET_SHIFTING_FAILED );
+
 	/* 1) Shift types and status. */
 	for( i=0; i<n-offset; ++i )
 	{
@@ -334,6 +345,10 @@ returnValue Bounds::rotate( int_t offset )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
 
+	for( i=0; i<n; ++i )
+		if ( ( getStatus( i ) != ST_INACTIVE ) && ( getStatus( i ) != ST_LOWER ) && ( getStatus( i ) != ST_UPPER ) )
+			return THROWERROR( RET_ROTATING_FAILED );
+
 	/* 1) Rotate types and status. */
 	SubjectToType*   typeTmp   = new SubjectToType[offset];
 	SubjectToStatus* statusTmp = new SubjectToStatus[offset];
diff --git a/src/Constraints.cpp b/src/Constraints.cpp
index bdf9759..9b0d689 100644
--- a/src/Constraints.cpp
+++ b/src/Constraints.cpp
@@ -189,6 +189,9 @@ returnValue Constraints::moveActiveToInactive( int_t number )
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	if ( this->getActive( )->isMember( number ) == BT_FALSE )
+		return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
+
 	/* Move index from indexlist of active constraints to that of inactive ones. */
 	if ( this->removeIndex( this->getActive( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -210,6 +213,10 @@ returnValue Constraints::moveInactiveToActive(	int_t number, SubjectToStatus _st
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	if ( ( this->getInactive( )->isMember( number ) == BT_FALSE ) ||
+		 ( ( _status != ST_LOWER ) && ( _status != ST_UPPER ) ) )
+		return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
+
 	/* Move index from indexlist of inactive constraints to that of active ones. */
 	if ( this->removeIndex( this->getInactive( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -260,6 +267,10 @@ returnValue Constraints::shift( int_t offset )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 
+	for( i=0; i<n; ++i )
+		if ( ( getStatus( i ) != ST_INACTIVE ) && ( getStatus( i ) != ST_LOWER ) && ( getStatus( i ) != ST_UPPER ) )
+			return THROWERROR( RET_SHIFTING_FAILED );
+
 	/* 1) Shift types and status. */
 	for( i=0; i<n-offset; ++i )
 	{
@@ -318,6 +329,10 @@ returnValue Constraints::rotate( int_t offset )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
 
+	for( i=0; i<n; ++i )
+		if ( ( getStatus( i ) != ST_INACTIVE ) && ( getStatus( i ) != ST_LOWER ) && ( getStatus( i ) != ST_UPPER ) )
+			return THROWERROR( RET_ROTATING_FAILED );
+
 	/* 1) Rotate types and status. */
 	SubjectToType*   typeTmp   = new SubjectToType[offset];
 	SubjectToStatus* statusTmp = new SubjectToStatus[offset];
diff --git a/src/Flipper.cpp b/src/Flipper.cpp
index fc77d4e..8770668 100644
--- a/src/Flipper.cpp
+++ b/src/Flipper.cpp
@@ -238,6 +238,9 @@ returnValue Flipper::clear( )
 returnValue Flipper::copy(	const Flipper& rhs
 							)
 {
+	nV = rhs.nV;
+	nC = rhs.nC;
+
 	return set( &(rhs.bounds),rhs.R, &(rhs.constraints),rhs.Q,rhs.T );
 }
 
diff --git a/src/SubjectTo.cpp b/src/SubjectTo.cpp
index 846786a..a849f82 100644
--- a/src/SubjectTo.cpp
+++ b/src/SubjectTo.cpp
@@ -206,6 +206,10 @@ returnValue SubjectTo::addIndex(	Indexlist* const indexlist,
 		if ( status[newnumber] == newstatus )
 			return THROWERROR( RET_INDEX_ALREADY_OF_DESIRED_STATUS );
 
+		/* index is already contained in some index list */
+		if ( status[newnumber] != ST_UNDEFINED )
+			return THROWERROR( RET_ADDINDEX_FAILED );
+
 		status[newnumber] = newstatus;
 	}
 	else
-- 
2.43.0


From 119deb7dc54858b78a093120d04edd202eeb1a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 16/59] fix: keep multipliers and factorisation valid for
 initial guesses

---
 src/QProblem.cpp  | 29 ++++++++++++++++++++++++++++-
 src/QProblemB.cpp | 20 +++++++++++++++++++-
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 18af058..9f51c58 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1367,12 +1367,39 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
+	/*    Ensure that multipliers of the auxiliary QP are consistent with its working set. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) )
+			y[i] = 0.0;
+	}
+
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) ||
+			 ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) )
+			y[nV+i] = 0.0;
+	}
+
 	/* d) Copy external Cholesky factor if provided */
 	haveCholesky = BT_FALSE;
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		/* The factor is only of use if all variables are free, in their
+		 * original order, and no constraint is active. */
+		int_t* FR_idx;
+		bounds.getFree( )->getNumberArray( &FR_idx );
+
+		BooleanType isApplicable = ( ( getNFR( ) == nV ) && ( getNAC( ) == 0 ) ) ? BT_TRUE : BT_FALSE;
+		for( i=0; i<getNFR( ); ++i )
+			if ( FR_idx[i] != i )
+				isApplicable = BT_FALSE;
+
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( isApplicable == BT_FALSE ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 7d5f19f..2ac4344 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2398,6 +2398,15 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
+	/*    Ensure that multipliers of the auxiliary QP are consistent with its working set. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) )
+			y[i] = 0.0;
+	}
+
 	/* b) Regularise Hessian if necessary. */
 	if ( ( hessianType == HST_ZERO ) || ( hessianType == HST_SEMIDEF ) )
 	{
@@ -2410,7 +2419,16 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		/* The factor is only of use if all variables are free, in their original order. */
+		int_t* FR_idx;
+		bounds.getFree( )->getNumberArray( &FR_idx );
+
+		BooleanType isApplicable = ( getNFR( ) == nV ) ? BT_TRUE : BT_FALSE;
+		for( i=0; i<getNFR( ); ++i )
+			if ( FR_idx[i] != i )
+				isApplicable = BT_FALSE;
+
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( isApplicable == BT_FALSE ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From ea4c3b215d815a2f074fbed77ae2f50960dd7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 17/59] fix: keep solver usable if no iteration is allowed

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 9f51c58..a482e19 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1536,6 +1536,9 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		return returnvalue;
 	}
 
+	/* the homotopy can be continued even if no iteration is allowed */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 	/* I) PREPARATIONS */
 	/* 1) Allocate delta vectors of gradient and (constraints') bounds,
 	 *    index arrays and step direction arrays. */
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2ac4344..969d620 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2574,6 +2574,9 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 		return returnvalue;
 	}
 
+	/* the homotopy can be continued even if no iteration is allowed */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From cb08aeba091a3cb699f0af575df9af44b4b71f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 18/59] fix: reject hot starts of uninitialised problems and
 missing gradients

---
 src/QProblem.cpp  | 6 ++++++
 src/QProblemB.cpp | 6 ++++++
 src/SQProblem.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a482e19..2d054bd 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -459,6 +459,12 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 969d620..e8f9ef3 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -425,6 +425,12 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 5ad1d88..f1110e5 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -110,6 +110,9 @@ returnValue SQProblem::hotstart(	SymmetricMatrix *H_new, const real_t* const g_n
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	real_t starttime = 0.0;
 	real_t auxTime = 0.0;
@@ -164,6 +167,9 @@ returnValue SQProblem::hotstart(	const real_t* const H_new, const real_t* const
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* start runtime measurement */
 	real_t starttime = 0.0;
 	if ( cputime != 0 ) {
-- 
2.43.0


From 0e923e4e9b0e6a76b98a07a5e6871adc53a892fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 19/59] fix: guard violation analysis against missing data

---
 src/SolutionAnalysis.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..59ab5a9 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,12 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
-	if ( qp == 0 )
+	if ( ( qp == 0 ) || ( qp->getStatus( ) == QPS_NOTINITIALISED ) )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -114,6 +115,8 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 			break;
 
 		default:
+			if ( qp->H == 0 )
+				break;
 			H_ptr = qp->H->full();
 			if ( qp->usingRegularisation() == BT_TRUE )
 				for( i=0; i<nV; ++i )
@@ -168,12 +171,13 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
-	if ( qp == 0 )
+	if ( ( qp == 0 ) || ( qp->getStatus( ) == QPS_NOTINITIALISED ) )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -188,14 +192,16 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 			break;
 
 		default:
+			if ( qp->H == 0 )
+				break;
 			H_ptr = qp->H->full();
 			if ( qp->usingRegularisation() == BT_TRUE )
 				for( i=0; i<nV; ++i )
 					H_ptr[i*nV+i] -= qp->regVal;
 	}
 
-	/* setup constraint matrix array */
-	real_t* A_ptr = qp->A->full();
+	/* setup constraint matrix array (or pass NULL pointer) */
+	real_t* A_ptr = ( qp->A != 0 ) ? qp->A->full() : 0;
 
 	real_t* workingSetB = new real_t[nV];
 	qp->getWorkingSetBounds( workingSetB );
-- 
2.43.0


From dcbe6dd6f41b41d42f92ae401e3dcc35674ad764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 20/59] fix: reject variance propagation without a solved
 problem

---
 src/SolutionAnalysis.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 59ab5a9..0eaa733 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -284,6 +284,15 @@ returnValue SolutionAnalysis::getVarianceCovariance(	QProblem* qp,
 														) const
 {
 
+  /* CONSISTENCY CHECKS:
+   * ------------------- */
+  if ( ( qp == 0 ) || ( g_b_bA_VAR == 0 ) || ( Primal_Dual_VAR == 0 ) )
+    return THROWERROR( RET_INVALID_ARGUMENTS );
+
+  if ( qp->isSolved( ) == BT_FALSE )
+    return THROWERROR( RET_QP_NOT_SOLVED );
+
+
   /* DEFINITION OF THE DIMENSIONS nV AND nC:
    * --------------------------------------- */
   int_t nV  = qp->getNV( );                      /* dimension of x / the bounds */
-- 
2.43.0


From 47b9ee4179e9209a13a15e485c55521abb03b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 21/59] fix: complete option handling of the C interface

---
 interfaces/c/qpOASES_wrapper.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..05f6f3d 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -128,6 +128,11 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
     options->dropEqConPriority             =  1;
     options->dropIneqConPriority           =  1;
 
+	options->enableInertiaCorrection       =  BT_TRUE;
+	options->rcondSMin                     =  1.0e-14;
+
+	options->printResiduals                =  BT_FALSE;
+
 
 	switch ( mode )
 	{
@@ -146,8 +151,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
@@ -221,6 +227,9 @@ int_t qpOASES_Options_copy(	const qpOASES_Options* const from,
 	to->epsLITests                    =  from->epsLITests;
 	to->epsNZCTests                   =  from->epsNZCTests;
 
+	to->rcondSMin                     =  from->rcondSMin;
+	to->enableInertiaCorrection       =  (BooleanType)(from->enableInertiaCorrection);
+
 	to->enableDropInfeasibles         =  (BooleanType)(from->enableDropInfeasibles);
     to->dropBoundPriority             =  from->dropBoundPriority;
     to->dropEqConPriority             =  from->dropEqConPriority;
-- 
2.43.0


From b07dc0987b2d92a5d540193265edcc559d8550c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 22/59] fix: detect truncated data files, write long integers
 and 32 bit MAT headers

---
 include/qpOASES/Types.hpp | 12 ++++++------
 src/Utils.cpp             | 20 +++++++++++++-------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/qpOASES/Types.hpp b/include/qpOASES/Types.hpp
index d47e4d5..2adaaf1 100644
--- a/include/qpOASES/Types.hpp
+++ b/include/qpOASES/Types.hpp
@@ -317,7 +317,7 @@ struct TabularOutput {
  *
  *	Struct storing the header of a variable to be stored in
  *	Matlab's binary format (using the outdated Level 4 variant
- *  for simplictiy).
+ *  for simplictiy). All its entries are 32 bit integers.
  *
  *  Note, this code snippet has been inspired from the document
  *  "Matlab(R) MAT-file Format, R2013b" by MathWorks
@@ -327,11 +327,11 @@ struct TabularOutput {
  *	\date 2013-2017
  */
 typedef struct {
-	long numericFormat;		/**< Flag indicating numerical format. */
-	long nRows;				/**< Number of rows. */
-	long nCols;				/**< Number of rows. */
-	long imaginaryPart;		/**< (to be documented) */
-	long nCharName;			/**< Number of character in name. */
+	int numericFormat;		/**< Flag indicating numerical format. */
+	int nRows;				/**< Number of rows. */
+	int nCols;				/**< Number of rows. */
+	int imaginaryPart;		/**< (to be documented) */
+	int nCharName;			/**< Number of character in name. */
 } MatMatrixHeader;
 
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index f8e142d..d28c9ef 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -294,9 +294,9 @@ returnValue readFromFile(	real_t* data, int_t nrow, int_t ncol,
 		for( j=0; j<ncol; ++j )
 		{
 			#ifdef __USE_SINGLE_PRECISION__
-			if ( fscanf( datafile, "%f ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%f ", &float_data ) != 1 )
 			#else
-			if ( fscanf( datafile, "%lf ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%lf ", &float_data ) != 1 )
 			#endif /* __USE_SINGLE_PRECISION__ */
 			{
 				fclose( datafile );
@@ -357,9 +357,9 @@ returnValue readFromFile(	int_t* data, int_t n,
 	for( i=0; i<n; ++i )
 	{
 		#ifdef __USE_LONG_INTEGERS__
-		if ( fscanf( datafile, "%ld\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%ld\n", &(data[i]) ) != 1 )
 		#else
-		if ( fscanf( datafile, "%d\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%d\n", &(data[i]) ) != 1 )
 		#endif
 		{
 			fclose( datafile );
@@ -486,7 +486,13 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 
 	/* 2) Write data into file. */
 	for( i=0; i<n; ++i )
+	{
+		#ifdef __USE_LONG_INTEGERS__
+		fprintf( datafile, "%ld\n",(long)(integer[i]) );
+		#else
 		fprintf( datafile, "%d\n",(int)(integer[i]) );
+		#endif
+	}
 
 	/* 3) Close file. */
 	fclose( datafile );
@@ -520,10 +526,10 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 
 	// setup variable header
 	var.numericFormat = 0000;  /* IEEE Little Endian - reserved - double precision (64 bits) - numeric full matrix */
-	var.nRows         = nRows; /* number of rows */
-	var.nCols         = nCols; /* number of columns */
+	var.nRows         = (int)nRows; /* number of rows */
+	var.nCols         = (int)nCols; /* number of columns */
 	var.imaginaryPart = 0;     /* no imaginary part */
-	var.nCharName     = (long)(strlen(name))+1; /* matrix name length */
+	var.nCharName     = (int)(strlen(name))+1; /* matrix name length */
 
 	/* write variable header to mat file */
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
-- 
2.43.0


From fb70f0bc4b5aace8df14090e539d490d265192dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 23/59] fix: keep matrices read from files alive after hot
 starts

---
 src/SQProblem.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index f1110e5..7b2c146 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -272,11 +272,38 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	}
 
 	/* 3) Actually perform hotstart. */
-	returnvalue = hotstart(	H_new,g_new,A_new,lb_new,ub_new,lbA_new,ubA_new,
+	/*    (the matrices must live as long as they are used by this object) */
+	SymDenseMat* sH = new SymDenseMat( nV,nV,nV,H_new );
+	sH->doFreeMemory( );
+
+	DenseMatrix* dA = 0;
+	if ( nC > 0 )
+	{
+		dA = new DenseMatrix( nC,nV,nV,A_new );
+		dA->doFreeMemory( );
+	}
+	else
+		delete[] A_new;
+
+	returnvalue = hotstart(	sH,g_new,dA,lb_new,ub_new,lbA_new,ubA_new,
 							nWSR,cputime,
 							guessedBounds,guessedConstraints
 							);
 
+	/* Either take over ownership of the matrices or dispose of them. */
+	if ( H == sH )
+		freeHessian = BT_TRUE;
+	else
+		delete sH;
+
+	if ( dA != 0 )
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
+
 	if ( ubA_file != 0 )
 		delete[] ubA_new;
 	if ( lbA_file != 0 )
@@ -286,8 +313,6 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	if ( lb_file != 0 )
 		delete[] lb_new;
 	delete[] g_new;
-	delete[] A_new;
-	delete[] H_new;
 
 	return returnvalue;
 }
-- 
2.43.0


From 8a1e75d2c65b19f2c2757848d09d0ad35694d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 24/59] fix: export problem data without explicit matrices and
 without regularisation

---
 src/QProblem.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2d054bd..248426f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6579,15 +6579,34 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 	int_t nV = getNV();
 	int_t nC = getNC();
 
-	real_t* Hfull = H->full();
+	/* Hessian without regularisation (it is not stored explicitly if trivial) */
+	int_t i;
+	real_t* Hfull = 0;
+	if ( H != 0 )
+		Hfull = H->full();
+	else
+	{
+		Hfull = new real_t[nV*nV];
+		for ( i=0; i<nV*nV; ++i )
+			Hfull[i] = 0.0;
+		if ( hessianType == HST_IDENTITY )
+			for ( i=0; i<nV; ++i )
+				Hfull[i*nV+i] = 1.0;
+	}
+	if ( ( H != 0 ) && ( hessianType != HST_ZERO ) && ( usingRegularisation( ) == BT_TRUE ) )
+		for ( i=0; i<nV; ++i )
+			Hfull[i*nV+i] -= regVal;
 	writeIntoMatFile( matFile, Hfull, nV,nV, "H"   );
 	delete[] Hfull;
 
 	writeIntoMatFile( matFile, g,     nV,1,  "g"   );
 
-	real_t* Afull = A->full();
-	writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
-	delete[] Afull;
+	if ( A != 0 )
+	{
+		real_t* Afull = A->full();
+		writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
+		delete[] Afull;
+	}
 
 	writeIntoMatFile( matFile, lb,    nV,1,  "lb"  );
 	writeIntoMatFile( matFile, ub,    nV,1,  "ub"  );
-- 
2.43.0


From 123439a947f40c0f9d9f43834b5e37a8c9c13af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 25/59] fix: read Cholesky factors from files in row order like
 those in memory

---
 src/QProblem.cpp  | 10 +++++++++-
 src/QProblemB.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 248426f..3e69250 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -380,7 +380,7 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 							const char* const R_file
 							)
 {
-	int_t i;
+	int_t i, j;
 	int_t nV = getNV( );
 	int_t nC = getNC( );
 
@@ -433,6 +433,14 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 		if ( returnvalue != SUCCESSFUL_RETURN )
 			return THROWWARNING( returnvalue );
 
+		/* R is stored column-wise, keep only its upper triangular part. */
+		for( i=0; i<nV; ++i )
+			for( j=i+1; j<nV; ++j )
+			{
+				RR(i,j) = R[i*nV+j];
+				RR(j,i) = 0.0;
+			}
+
 		/* 3) Call to main initialisation routine. ...passing R here!] */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,R, nWSR,cputime );
 	}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e8f9ef3..46b5716 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -356,7 +356,7 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 								const char* const R_file
 								)
 {
-	int_t i;
+	int_t i, j;
 	int_t nV = getNV( );
 
 	if ( nV == 0 )
@@ -401,6 +401,14 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 		if ( returnvalue != SUCCESSFUL_RETURN )
 			return THROWWARNING( returnvalue );
 
+		/* R is stored column-wise, keep only its upper triangular part. */
+		for( i=0; i<nV; ++i )
+			for( j=i+1; j<nV; ++j )
+			{
+				RR(i,j) = R[i*nV+j];
+				RR(j,i) = 0.0;
+			}
+
 		/* 3) Call to main initialisation routine. ...passing R here!] */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,R, nWSR,cputime );
 	}
-- 
2.43.0


From f409ebec22c8b72185ce44f945083512831a853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 26/59] fix: export the orthonormal factor of the workspace
 untransposed

---
 src/QProblem.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 3e69250..5707a49 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6656,7 +6656,15 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 
 
 	writeIntoMatFile( matFile, T, sizeT,sizeT, "T" );
-	writeIntoMatFile( matFile, Q, nV,nV, "Q" );
+
+	/* Q is stored column-wise */
+	int_t i, j;
+	real_t* Qrows = new real_t[nV*nV];
+	for( i=0; i<nV; ++i )
+		for( j=0; j<nV; ++j )
+			Qrows[i*nV+j] = QQ(i,j);
+	writeIntoMatFile( matFile, Qrows, nV,nV, "Q" );
+	delete[] Qrows;
 
 	writeIntoMatFile( matFile, Ax, nC,1, "Ax" );
 	writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" );
-- 
2.43.0


From 77d50b3f1347b3ee568adc18b87b887d96d0d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 27/59] fix: release optional benchmark data properly and
 report no residuals without a solution

---
 src/OQPinterface.cpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index f63168a..7633729 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -170,9 +170,12 @@ returnValue readOqpData(	const char* path,
 	}
 	else
 	{
-		*A = 0;
-		*lbA = 0;
-		*ubA = 0;
+		if ( A != 0 )
+			*A = 0;
+		if ( lbA != 0 )
+			*lbA = 0;
+		if ( ubA != 0 )
+			*ubA = 0;
 	}
 
 	if ( xOpt != 0 )
@@ -182,7 +185,7 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sx_opt.oqp",path );
 		if ( readFromFile( *xOpt,nQP,nV,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] xOpt;
+			delete[] *xOpt;
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -196,8 +199,8 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sy_opt.oqp",path );
 		if ( readFromFile( *yOpt,nQP,nV+nC,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] yOpt;
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *yOpt;
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -211,9 +214,9 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sobj_opt.oqp",path );
 		if ( readFromFile( *objOpt,nQP,1,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] objOpt;
-			if ( yOpt != 0 ) { delete[] yOpt; };
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *objOpt;
+			if ( yOpt != 0 ) { delete[] *yOpt; };
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -372,12 +375,13 @@ returnValue solveOqpBenchmark(	int_t nQP, int_t nV, int_t nC, int_t nEC,
 		}
 
 		/* 4) Obtain solution vectors and objective function value */
-		qp.getPrimalSolution( x );
-		qp.getDualSolution( y );
 		//obj = qp.getObjVal( );
 
-		/* 5) Compute KKT residuals */
-		getKktViolation( nV,nC, _H,gCur,_A,lbCur,ubCur,lbACur,ubACur, x,y, stat,feas,cmpl );
+		/* 5) Compute KKT residuals (if there is a solution at all) */
+		if ( ( qp.getPrimalSolution( x ) == SUCCESSFUL_RETURN ) && ( qp.getDualSolution( y ) == SUCCESSFUL_RETURN ) )
+			getKktViolation( nV,nC, _H,gCur,_A,lbCur,ubCur,lbACur,ubACur, x,y, stat,feas,cmpl );
+		else
+			stat = feas = cmpl = INFTY;
 		
 		/* 6) Update maximum and average values. */
 		if ( ((double)nWSRcur) > maxNWSR )
@@ -534,12 +538,13 @@ returnValue solveOqpBenchmark(	int_t nQP, int_t nV,
 		}
 
 		/* 4) Obtain solution vectors and objective function value ... */
-		qp.getPrimalSolution( x );
-		qp.getDualSolution( y );
 		//obj = qp.getObjVal( );
 
-		/* 5) Compute KKT residuals */
-		getKktViolation( nV, _H,gCur,lbCur,ubCur, x,y, stat,feas,cmpl );
+		/* 5) Compute KKT residuals (if there is a solution at all) */
+		if ( ( qp.getPrimalSolution( x ) == SUCCESSFUL_RETURN ) && ( qp.getDualSolution( y ) == SUCCESSFUL_RETURN ) )
+			getKktViolation( nV, _H,gCur,lbCur,ubCur, x,y, stat,feas,cmpl );
+		else
+			stat = feas = cmpl = INFTY;
 
 		/* 6) update maximum values. */
 		if ( ((real_t)nWSRcur) > maxNWSR )
-- 
2.43.0


From 8c359b5d7c89c0dee757efcf987eb9d448bb56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 28/59] fix: keep constraints without sides out of ratio tests

---
 src/QProblem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5707a49..43c3d5f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2028,6 +2028,8 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			constraints.setType( i,ST_UNBOUNDED );
 			lbA[i] = -INFTY;
 			ubA[i] =  INFTY;
+			Ax_l[i] = INFTY;
+			Ax_u[i] = INFTY;
 			continue;
 		}
 
@@ -5300,6 +5302,11 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 					return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
 				}
 			}
+			else
+			{
+				/* constraint products are not maintained for unbounded constraints */
+				delta_Ax[ii] = 0.0;
+			}
 		}
 	}
 
-- 
2.43.0


From 18c6a31250e0c917eeefdc2779fdafeeba499d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 29/59] fix: print debugging output without constraints,
 Hessian or null space factors

---
 src/QProblem.cpp  | 19 ++++++++++++-------
 src/QProblemB.cpp | 21 +++++++++++++++++++--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 43c3d5f..2e6ad3a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6282,13 +6282,15 @@ returnValue QProblem::printIteration( 	int_t iter,
 					break;
 			}
 
-			A->transTimes(1, -1.0, y+nV, nC, 1.0, grad, nV);
+			if ( A != 0 )
+				A->transTimes(1, -1.0, y+nV, nC, 1.0, grad, nV);
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
 			for (i = 0; i < nV; i++) if (lb[i] - x[i] > bfeas) bfeas = lb[i] - x[i];
 			for (i = 0; i < nV; i++) if (x[i] - ub[i] > bfeas) bfeas = x[i] - ub[i];
-			A->times(1, 1.0, x, nV, 0.0, AX, nC);
+			if ( A != 0 )
+				A->times(1, 1.0, x, nV, 0.0, AX, nC);
 			for (i = 0; i < nC; i++) if (lbA[i] - AX[i] > cfeas) cfeas = lbA[i] - AX[i];
 			for (i = 0; i < nC; i++) if (AX[i] - ubA[i] > cfeas) cfeas = AX[i] - ubA[i];
 
@@ -6299,11 +6301,14 @@ returnValue QProblem::printIteration( 	int_t iter,
 			for (i = 0; i < nC; i++) if (y[nV+i] < -EPS && getAbs((ubA[i]-AX[i])*y[nV+i]) > ccmpl) ccmpl = getAbs((ubA[i]-AX[i])*y[nV+i]);
 
 			Tmin = 1.0e16; Tmax = 0.0;
-			for (i = 0; i < nAC; i++)
-				if (getAbs(TT(i,sizeT-i-1)) < Tmin)
-					Tmin = getAbs(TT(i,sizeT-i-1));
-				else if (getAbs(TT(i,sizeT-i-1)) > Tmax)
-					Tmax = getAbs(TT(i,sizeT-i-1));
+			if ( T != 0 )
+			{
+				for (i = 0; i < nAC; i++)
+					if (getAbs(TT(i,sizeT-i-1)) < Tmin)
+						Tmin = getAbs(TT(i,sizeT-i-1));
+					else if (getAbs(TT(i,sizeT-i-1)) > Tmax)
+						Tmax = getAbs(TT(i,sizeT-i-1));
+			}
 			Tmaxomin = Tmax/Tmin;
 
 			if ( (iter % 10 == 0) && ( isFirstCall == BT_TRUE ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 46b5716..3735d96 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3859,7 +3859,24 @@ returnValue QProblemB::printIteration( 	int_t iter,
 
 			/* stationarity */
 			for (i = 0; i < nV; i++) grad[i] = g[i] - y[i];
-			H->times(1, 1.0, x, nV, 1.0, grad, nV);
+
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					for( i=0; i<nV; ++i )
+						grad[i] += regVal * x[i];
+					break;
+
+				case HST_IDENTITY:
+					for( i=0; i<nV; ++i )
+						grad[i] += 1.0 * x[i];
+					break;
+
+				default:
+					H->times(1, 1.0, x, nV, 1.0, grad, nV);
+					break;
+			}
+
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
@@ -3874,8 +3891,8 @@ returnValue QProblemB::printIteration( 	int_t iter,
 			{
 				snprintf( myPrintfString,MAX_STRING_LENGTH, "\n%5s %4s %4s %9s %9s %9s %9s %9s\n",
 						"iter", "addB", "remB", "hom len", "tau", "stat", "bfeas", "bcmpl");
+				myPrintf( myPrintfString );
 			}
-			myPrintf( myPrintfString );
 
 			snprintf( myPrintfString,MAX_STRING_LENGTH, "%5d ",(int)iter );
 			myPrintf( myPrintfString );
-- 
2.43.0


From cf0afac1dca40a2a6ce6242417f7e17473cb74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 30/59] fix: continue after a full homotopy step of QProblemB
 with rounding errors

---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3735d96..e704d67 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3500,9 +3500,9 @@ returnValue QProblemB::changeActiveSet( int_t BC_idx, SubjectToStatus BC_status
 	/* IV) UPDATE ACTIVE SET */
 	switch ( BC_status )
 	{
-		/* Optimal solution found as no working set change detected. */
+		/* No working set change detected (remaining homotopy length is due to rounding errors). */
 		case ST_UNDEFINED:
-			return RET_OPTIMAL_SOLUTION_FOUND;
+			return SUCCESSFUL_RETURN;
 
 
 		/* Remove one variable from active set. */
-- 
2.43.0


From 00b49af1b2d3dcc13605940813ebf0391b78cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 31/59] fix: reject solveCurrentEQP without a solved problem or
 with missing sides of active members

---
 src/QProblem.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2e6ad3a..a5267af 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -739,9 +739,18 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 										real_t* y_out
 										)
 {
-	if ( ( x_out == 0 ) || ( y_out == 0 ) )
+	if ( ( n_rhs < 1 ) || ( g_in == 0 ) || ( x_out == 0 ) || ( y_out == 0 ) )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	/* There is no current active set unless a QP has been solved. */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   ||
+		 ( ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) && ( haveCholesky == BT_FALSE ) ) )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
 	returnValue returnvalue = SUCCESSFUL_RETURN;
 	int_t ii, jj;
 	int_t nV  = getNV( );
@@ -750,6 +759,17 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	int_t nFX = getNFX( );
 	int_t nAC = getNAC( );
 
+	/* Active members need a value in every right hand side. */
+	for ( ii = 0; ii < nV; ++ii )
+		if ( ( ( bounds.getStatus( ii ) == ST_LOWER ) && ( lb_in == 0 ) ) ||
+			 ( ( bounds.getStatus( ii ) == ST_UPPER ) && ( ub_in == 0 ) ) )
+			return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	for ( ii = 0; ii < nC; ++ii )
+		if ( ( ( constraints.getStatus( ii ) == ST_LOWER ) && ( lbA_in == 0 ) ) ||
+			 ( ( constraints.getStatus( ii ) == ST_UPPER ) && ( ubA_in == 0 ) ) )
+			return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	real_t *delta_xFX = new real_t[nFX];
 	real_t *delta_xFR = new real_t[nFR];
 	real_t *delta_yAC = new real_t[nAC];
@@ -773,6 +793,9 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			g_in, lbA_in, ubA_in, lb_in, ub_in, BT_FALSE, BT_FALSE,
 			delta_xFX, delta_xFR, delta_yAC, delta_yFX );
 
+		if ( returnvalue != SUCCESSFUL_RETURN )
+			break;
+
 		for ( jj = 0; jj < nFX; ++jj )
 			x_out[FX_idx[jj]] = delta_xFX[jj];
 		for ( jj = 0; jj < nFR; ++jj )
@@ -783,10 +806,14 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			y_out[nV+AC_idx[jj]] = delta_yAC[jj];
 
 		g_in += nV;
-		lb_in += nV;
-		ub_in += nV;
-		lbA_in += nC;
-		ubA_in += nC;
+		if ( lb_in != 0 )
+			lb_in += nV;
+		if ( ub_in != 0 )
+			ub_in += nV;
+		if ( lbA_in != 0 )
+			lbA_in += nC;
+		if ( ubA_in != 0 )
+			ubA_in += nC;
 		x_out += nV;
 		y_out += nV+nC;
 	}
-- 
2.43.0


From 6a27da917483877848a094a9a1b4f70ca6d25132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 32/59] fix: endless recursion when messages are printed
 without output file

---
 src/Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index d28c9ef..e17e90f 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -237,8 +237,8 @@ returnValue myPrintf( const char* s )
 				sciprint( s );
 			#else
 				FILE* outputfile = getGlobalMessageHandler( )->getOutputFile( );
-				if ( outputfile == 0 )
-					return THROWERROR( RET_NO_GLOBAL_MESSAGE_OUTPUTFILE );
+				if ( outputfile == 0 ) /* (error cannot be printed as this would call myPrintf again) */
+					return RET_NO_GLOBAL_MESSAGE_OUTPUTFILE;
 				fprintf( outputfile, "%s", s );
 			#endif /* __SCILAB__ */
 		#endif /* __MATLAB__ */
-- 
2.43.0


From 066257bf2241bf07acec91d921312e418af0e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 33/59] fix: message handlers write into their own output file

---
 src/MessageHandling.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/MessageHandling.cpp b/src/MessageHandling.cpp
index 3b21ebd..298f3ab 100644
--- a/src/MessageHandling.cpp
+++ b/src/MessageHandling.cpp
@@ -231,6 +231,22 @@ MessageHandling::ReturnValueList returnValueList[1]; /* Do not use messages for
 
 
 
+#ifndef __SUPPRESSANYOUTPUT__
+
+/** Writes a string into the output file of a message handler (if there is one). */
+static void printIntoFile( FILE* outputFile, const char* s )
+{
+	#if defined(__MATLAB__) || defined(__SCILAB__)
+	myPrintf( s );
+	#else
+	if ( outputFile != 0 )
+		fprintf( outputFile,"%s",s );
+	#endif
+}
+
+#endif /* __SUPPRESSANYOUTPUT__ */
+
+
 /*****************************************************************************
  *  P U B L I C                                                              *
  *****************************************************************************/
@@ -439,7 +455,7 @@ returnValue MessageHandling::listAllMessages( )
 	while ( returnValueList[keypos].key != TERMINAL_LIST_ELEMENT )
 	{
 		snprintf( myPrintfString,MAX_STRING_LENGTH," %d - %s \n",(int)keypos,returnValueList[keypos].data );
-		myPrintf( myPrintfString );
+		printIntoFile( outputFile,myPrintfString );
 
 		++keypos;
 	}
@@ -508,14 +524,14 @@ returnValue MessageHandling::throwMessage(	returnValue RETnumber,
 	{
 		if ( errorCount < 0 )
 		{
-			myPrintf( "\n" );
+			printIntoFile( outputFile,"\n" );
 			errorCount = 0;
 		}
 
 		if ( errorCount > 0 )
 		{
 			snprintf( myPrintfString,MAX_STRING_LENGTH,"%s->", whitespaces );
-			myPrintf( myPrintfString );
+			printIntoFile( outputFile,myPrintfString );
 		}
 
 		if ( additionaltext == 0 )
@@ -529,7 +545,7 @@ returnValue MessageHandling::throwMessage(	returnValue RETnumber,
 						RETstring,returnValueList[keypos].data
 						);
 			#endif
-			myPrintf( myPrintfString );
+			printIntoFile( outputFile,myPrintfString );
 		}
 		else
 		{
@@ -542,7 +558,7 @@ returnValue MessageHandling::throwMessage(	returnValue RETnumber,
 						RETstring,returnValueList[keypos].data,additionaltext
 						);
 			#endif
-			myPrintf( myPrintfString );
+			printIntoFile( outputFile,myPrintfString );
 		}
 
 		/* take care of proper indention for subsequent error messages */
@@ -553,7 +569,7 @@ returnValue MessageHandling::throwMessage(	returnValue RETnumber,
 		else
 		{
 			if ( errorCount > 0 )
-				myPrintf( "\n" );
+				printIntoFile( outputFile,"\n" );
 			errorCount = 0;
 		}
 	}
-- 
2.43.0


From d856f28306fa7584fdd5a23677f821908c61046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 34/59] fix: curvature test used an uninitialised step
 direction if its computation failed

---
 src/QProblem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a5267af..755fc89 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4581,6 +4581,17 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		delete[] nul;
 	}
 
+	if ( returnvalue != SUCCESSFUL_RETURN )
+	{
+		/* step direction has not been computed, so there is nothing to test */
+		delete[] delta_yFX;
+		delete[] delta_yAC;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+
+		return returnvalue;
+	}
+
 	/* compute the weight in inf-norm */
 	real_t normXi = 0.0;
 	for (ii = 0; ii < nAC; ++ii)
-- 
2.43.0


From 78a22bf5b062ef4a4b3a4e576417a15a6794a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 35/59] fix: regularisation of zero objectives used a zero
 regularisation parameter

---
 src/QProblemB.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e704d67..f4590c8 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2110,6 +2110,10 @@ returnValue QProblemB::regulariseHessian( )
 		if ( hessianType == HST_ZERO )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+
+			/* A zero gradient provides no scale. */
+			if ( usingRegularisation( ) == BT_FALSE )
+				regVal = options.epsRegularisation;
 		}
 		else
 		{
@@ -2117,6 +2121,10 @@ returnValue QProblemB::regulariseHessian( )
 			SymmetricMatrix* H_reg = H->duplicateSym( );
 			real_t newRegVal = H->getNorm() * options.epsRegularisation;
 
+			/* A zero Hessian provides no scale. */
+			if ( newRegVal <= ZERO )
+				newRegVal = options.epsRegularisation;
+
 			if ( H_reg->addToDiag( newRegVal ) != SUCCESSFUL_RETURN )
 			{
 				delete H_reg;
-- 
2.43.0


From 08bc22d071e86d76c689ad2e906cfc679dc0f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 36/59] fix: multipliers of wrong sign due to rounding errors
 were ignored in the ratio test

---
 src/QProblem.cpp  | 4 ++--
 src/QProblemB.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 755fc89..aafe75a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5283,7 +5283,7 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 	{
 		ii = AC_idx[i];
 
-		num[i] = y[nV+ii];
+		num[i] = ( constraints.getStatus( ii ) == ST_LOWER ) ? getMax( y[nV+ii],0.0 ) : getMin( y[nV+ii],0.0 );
 		den[i] = -delta_yAC[i];
 	}
 
@@ -5302,7 +5302,7 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_LOWER ) ? getMax( y[ii],0.0 ) : getMin( y[ii],0.0 );
 		den[i] = -delta_yFX[i];
 	}
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index f4590c8..8e38cd2 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3388,7 +3388,7 @@ returnValue QProblemB::performStep(	const real_t* const delta_g,
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_LOWER ) ? getMax( y[ii],0.0 ) : getMin( y[ii],0.0 );
 		den[i] = -delta_yFX[i];
 	}
 
-- 
2.43.0


From 5879f200497d1c6f5aeabf3a1c28a8fcb3ef0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 37/59] fix: Hessian was not regularised initially with active
 constraints but no fixed variables

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index aafe75a..0cdd35b 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2348,7 +2348,7 @@ returnValue QProblem::setupInitialCholesky( )
 
 	/* If regularisation shall be used, always regularise at beginning
 	 * if initial working set is not empty (never necessary for identity Hessian). */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
+	if ( ( ( getNV() != getNFR()-getNFV() ) || ( getNAC() > 0 ) ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
-- 
2.43.0


From 75b17bad4ba1c539ef9225e674fd6379b3d11c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 38/59] fix: full linear independence test failed for
 regularised zero Hessians

---
 src/QProblem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0cdd35b..2a7c5bf 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -3293,6 +3293,10 @@ returnValue QProblem::addConstraint_checkLI( int_t number )
 			if (zero < a) zero = a;
 		}
 
+		/* a regularised zero Hessian amplifies rounding errors of the step direction */
+		if ( ( hessianType == HST_ZERO ) && ( usingRegularisation( ) == BT_TRUE ) )
+			zero *= regVal;
+
 		/* relative test against zero in inf-norm */
 		if (zero > options.epsLITests * weight)
 			returnvalue = RET_LINEARLY_INDEPENDENT;
@@ -3789,6 +3793,10 @@ returnValue QProblem::addBound_checkLI( int_t number )
 			if (zero < a) zero = a;
 		}
 
+		/* a regularised zero Hessian amplifies rounding errors of the step direction */
+		if ( ( hessianType == HST_ZERO ) && ( usingRegularisation( ) == BT_TRUE ) )
+			zero *= regVal;
+
 		/* relative test against zero in inf-norm */
 		if (zero > options.epsLITests * weight)
 			returnvalue = RET_LINEARLY_INDEPENDENT;
-- 
2.43.0


From 7a4a6f27c259f4f81ae986e2a06a440a9f77e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 39/59] fix: rounding errors in sides of dependent constraints
 made later hot starts infeasible

---
 src/QProblem.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2a7c5bf..9a8244e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1549,7 +1549,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 								BooleanType isFirstCall
 								)
 {
-	int_t iter;
+	int_t i, iter;
 	int_t nV  = getNV( );
 	int_t nC  = getNC( );
 
@@ -1711,6 +1711,30 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		homotopyLength = getRelativeHomotopyLength( g_new,lb_new,ub_new,lbA_new,ubA_new );
 		if ( homotopyLength <= options.terminationTolerance )
 		{
+			/* Remove rounding errors from the sides of constraints that do not
+			 * determine the solution, as they would cause an infeasible shift of
+			 * linearly dependent constraints in subsequent hotstarts. */
+			for( i=0; i<nC; ++i )
+			{
+				if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( constraints.getType( i ) != ST_UNBOUNDED ) )
+				{
+					real_t lower = ( lbA_new != 0 ) ? lbA_new[i] : -INFTY;
+					real_t upper = ( ubA_new != 0 ) ? ubA_new[i] :  INFTY;
+
+					if ( Ax[i] - lower >= options.epsNum )
+					{
+						lbA[i] = lower;
+						Ax_l[i] = Ax[i] - lower;
+					}
+
+					if ( upper - Ax[i] >= options.epsNum )
+					{
+						ubA[i] = upper;
+						Ax_u[i] = upper - Ax[i];
+					}
+				}
+			}
+
 			status = QPS_SOLVED;
 
 			THROWINFO( RET_OPTIMAL_SOLUTION_FOUND );
-- 
2.43.0


From ee327a4b1e750236202d6f03a3f0cb98f86f37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 40/59] fix: Schur complement solver crashed if a Cholesky
 factor was passed or its workspace written

---
 src/QProblem.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 9a8244e..ba23bde 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -421,7 +421,7 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 	if ( setupQPdataFromFile( H_file,g_file,A_file,lb_file,ub_file,lbA_file,ubA_file ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 
-	if ( R_file == 0 )
+	if ( ( R_file == 0 ) || ( R == 0 ) ) /* derived classes may work without dense factors */
 	{
 		/* 3) Call to main initialisation routine. */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,0, nWSR,cputime );
@@ -1428,7 +1428,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	/* d) Copy external Cholesky factor if provided */
 	haveCholesky = BT_FALSE;
 
-	if ( _R != 0 )
+	if ( ( _R != 0 ) && ( R != 0 ) ) /* derived classes may work without dense factors */
 	{
 		/* The factor is only of use if all variables are free, in their
 		 * original order, and no constraint is active. */
@@ -6739,13 +6739,14 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 
 	writeIntoMatFile( matFile, T, sizeT,sizeT, "T" );
 
-	/* Q is stored column-wise */
+	/* Q is stored column-wise (derived classes may work without dense factors) */
 	int_t i, j;
-	real_t* Qrows = new real_t[nV*nV];
-	for( i=0; i<nV; ++i )
-		for( j=0; j<nV; ++j )
+	int_t nQ = ( Q != 0 ) ? nV : 0;
+	real_t* Qrows = new real_t[nQ*nQ];
+	for( i=0; i<nQ; ++i )
+		for( j=0; j<nQ; ++j )
 			Qrows[i*nV+j] = QQ(i,j);
-	writeIntoMatFile( matFile, Qrows, nV,nV, "Q" );
+	writeIntoMatFile( matFile, Qrows, nQ,nQ, "Q" );
 	delete[] Qrows;
 
 	writeIntoMatFile( matFile, Ax, nC,1, "Ax" );
-- 
2.43.0


From 7100c89830e95da3624fc55f83225b16e46de925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 41/59] fix: hot starts refused because of undefined guesses or
 contradicting sides changed the solver's state

---
 include/qpOASES/QProblem.hpp |  7 +++++++
 src/QProblem.cpp             | 38 ++++++++++++++++++++++++++++++++----
 src/QProblemB.cpp            | 15 ++++++++++----
 src/SQProblem.cpp            | 14 +++++++++++++
 4 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/include/qpOASES/QProblem.hpp b/include/qpOASES/QProblem.hpp
index 16ca5e2..3f9da52 100644
--- a/include/qpOASES/QProblem.hpp
+++ b/include/qpOASES/QProblem.hpp
@@ -1007,6 +1007,13 @@ class QProblem : public QProblemB
 										real_t *xiC					/**< (not yet documented) */
 										);
 
+		/** Decides if the given guesses specify a status for each bound and each constraint.
+		 *
+		 * \return BT_TRUE iff all statuses are defined (or no guess is given at all) */
+		BooleanType areGuessesDefined(	const Bounds* const guessedBounds,				/**< Guessed working set of bounds, may be NULL. */
+										const Constraints* const guessedConstraints		/**< Guessed working set of constraints, may be NULL. */
+										) const;
+
 		/** Decides if lower bounds are smaller than upper bounds
 		 *
 		 * \return SUCCESSFUL_RETURN \n
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ba23bde..96b965a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -473,6 +473,13 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	if ( areGuessesDefined( guessedBounds,guessedConstraints ) == BT_FALSE )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	/* Simple check for consistency of bounds and constraints. */
+	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
@@ -498,10 +505,6 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	returnValue returnvalue = SUCCESSFUL_RETURN;
 
-	/* Simple check for consistency of bounds and constraints. */
-	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
-
 	++count;
 
 	int_t nWSR_max = nWSR;
@@ -2899,6 +2902,33 @@ returnValue QProblem::setupAuxiliaryQPgradient( )
 }
 
 
+/*
+ *	a r e G u e s s e s D e f i n e d
+ */
+BooleanType QProblem::areGuessesDefined(	const Bounds* const guessedBounds,
+											const Constraints* const guessedConstraints
+											) const
+{
+	int_t i;
+
+	if ( guessedBounds != 0 )
+	{
+		for( i=0; i<getNV( ); ++i )
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return BT_FALSE;
+	}
+
+	if ( guessedConstraints != 0 )
+	{
+		for( i=0; i<getNC( ); ++i )
+			if ( guessedConstraints->getStatus( i ) == ST_UNDEFINED )
+				return BT_FALSE;
+	}
+
+	return BT_TRUE;
+}
+
+
 /*
  *	a r e B o u n d s C o n s i s t e n t
  */
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 8e38cd2..6cd6804 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -439,6 +439,17 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	if ( guessedBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
+	/* Simple check for consistency of bounds */
+	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
@@ -462,10 +473,6 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	returnValue returnvalue = SUCCESSFUL_RETURN;
 
-	/* Simple check for consistency of bounds */
-	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
-
 	++count;
 
 
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 7b2c146..cf32bb0 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -113,6 +113,13 @@ returnValue SQProblem::hotstart(	SymmetricMatrix *H_new, const real_t* const g_n
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	/* check data before anything is changed */
+	if ( areGuessesDefined( guessedBounds,guessedConstraints ) == BT_FALSE )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( areBoundsConsistent( lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
+
 
 	real_t starttime = 0.0;
 	real_t auxTime = 0.0;
@@ -170,6 +177,13 @@ returnValue SQProblem::hotstart(	const real_t* const H_new, const real_t* const
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	/* check data before anything is changed */
+	if ( areGuessesDefined( guessedBounds,guessedConstraints ) == BT_FALSE )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( areBoundsConsistent( lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
+
 	/* start runtime measurement */
 	real_t starttime = 0.0;
 	if ( cputime != 0 ) {
-- 
2.43.0


From 48f36a4547646a96721077cd1f1b65f96873a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 42/59] fix: crash if a regularised zero Hessian without matrix
 was declared semidefinite

---
 src/QProblem.cpp       | 14 +++++++++-----
 src/QProblemB.cpp      |  9 ++++++---
 src/SQProblemSchur.cpp | 12 ++++++++----
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 96b965a..f868ee7 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2354,7 +2354,8 @@ returnValue QProblem::computeProjectedCholesky( )
 			options.epsRegularisation = getMin( -R[0]+options.epsRegularisation,getSqrt(getAbs(options.epsRegularisation)) );
 		}
 
-		hessianType = HST_SEMIDEF;
+		if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+			hessianType = HST_SEMIDEF;
 		return RET_HESSIAN_NOT_SPD;
 	}
 
@@ -4237,7 +4238,8 @@ returnValue QProblem::removeConstraint(	int_t number,
 				RR(nZ,nZ) = getSqrt( rho2 );
 			else
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R,&constraints,Q,T );
 				constraints.flipFixed(number);
@@ -4269,7 +4271,8 @@ returnValue QProblem::removeConstraint(	int_t number,
 				}
 				else
 				{
-					hessianType = HST_SEMIDEF;
+					if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+						hessianType = HST_SEMIDEF;
 					return THROWERROR( RET_HESSIAN_NOT_SPD );
 				}
 			}
@@ -4488,7 +4491,7 @@ returnValue QProblem::removeBound(	int_t number,
 				RR(nZ,nZ) = getSqrt( rho2 );
 			else
 			{
-				if ( hessianType != HST_ZERO )
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
 					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R,&constraints,Q,T );
@@ -4519,7 +4522,8 @@ returnValue QProblem::removeBound(	int_t number,
 					RR(nZ,nZ) = 100.0*EPS;
 				else
 				{
-					hessianType = HST_SEMIDEF;
+					if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+						hessianType = HST_SEMIDEF;
 					return THROWERROR( RET_HESSIAN_NOT_SPD );
 				}
 			}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 6cd6804..1278bfd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1528,7 +1528,8 @@ returnValue QProblemB::computeCholesky( )
 						options.epsRegularisation = getMin( -R[0]+options.epsRegularisation,getSqrt(getAbs(options.epsRegularisation)) );
 					}
 
-					hessianType = HST_SEMIDEF;
+					if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+						hessianType = HST_SEMIDEF;
 					return RET_HESSIAN_NOT_SPD;
 				}
 
@@ -3794,7 +3795,8 @@ returnValue QProblemB::removeBound(	int_t number,
 				RR(nFR,nFR) = getSqrt( r0 );
 			else
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R );
 				bounds.flipFixed(number);
@@ -3816,7 +3818,8 @@ returnValue QProblemB::removeBound(	int_t number,
 			{
 				delete[] rhs; delete[] r;
 
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 				return THROWERROR( RET_HESSIAN_NOT_SPD );
 			}
 		}
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 5ffca3d..4f5d699 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1652,7 +1652,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 
 			if ( oldDet * newDet > 0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				nS--;
@@ -1689,7 +1690,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 
 			if ( oldDet * newDet < 0.0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				undoDeleteFromSchurComplement( idxDeleted );
@@ -2024,7 +2026,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 			if ( oldDet * newDet > 0.0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				nS--;
@@ -2059,7 +2062,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 			if ( oldDet * newDet < 0.0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				undoDeleteFromSchurComplement( idxDeleted );
-- 
2.43.0


From 0dcc219e1bcfd89546de39c5581e7d21c4c74ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 43/59] fix: memory leaks when the Schur complement solver
 corrects the inertia or repairs its working set

---
 src/SQProblemSchur.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 4f5d699..ae13198 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3436,7 +3436,7 @@ returnValue SQProblemSchur::correctInertia( )
 	real_t oldDetS;
 	int_t nFR = getNFR( );
 	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
+	int_t *freeBoundIdx;
 	int_t *numberarray;
 
 	/* method may only be called after refactorization or if one bound/constraint
@@ -3454,6 +3454,7 @@ returnValue SQProblemSchur::correctInertia( )
 		return SUCCESSFUL_RETURN;
 
 	/* get bound numbers in the order in which they are in the non-basis */
+	freeBoundIdx = new int_t[nFR];
 	bounds.getFree()->getNumberArray( &numberarray );
 	for( k=0; k<nFR; k++ )
 		freeBoundIdx[k] = numberarray[k];
@@ -3479,6 +3480,7 @@ returnValue SQProblemSchur::correctInertia( )
 			{
 				if ( options.printLevel == PL_HIGH )
 					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				delete[] freeBoundIdx;
 				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
 			}
 
@@ -3573,7 +3575,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 
 			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
 			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_ADDBOUND_FAILED;
+			}
 
 			/* Adjust bounds */
 			if ( B_status == ST_LOWER )
@@ -3591,7 +3596,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
 
 			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_REMOVECONSTRAINT_FAILED;
+			}
 
 			// AW: If this is an equality constraint, it is now inactive and
 			// will not be considered in the step computation which leads to
-- 
2.43.0


From b32cde33df99c968cfd4a68bf3e902527c9debe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 44/59] fix: repair of singular working sets mixed up indices
 of unsorted zero pivots and multipliers

---
 src/SQProblemSchur.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index ae13198..ffb2902 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3553,8 +3553,15 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 	if ( zeroPivots == 0 )
 		return RET_KKT_MATRIX_SINGULAR;
 
-	/* We assume implicitly that pivots are sorted in ascending order */
-	/// \todo make sure that this is so.
+	/* Ensure that pivots are sorted in ascending order */
+	for ( k=1; k<defect; k++ )
+	{
+		int_t pivot = zeroPivots[k], l = k;
+		for ( ; ( l > 0 ) && ( zeroPivots[l-1] > pivot ); l-- )
+			zeroPivots[l] = zeroPivots[l-1];
+		zeroPivots[l] = pivot;
+	}
+
 	/* Remove the one with the highest index first so not to mess up index lists */
 	int_t bndsAdded = 0;
 	for ( k=defect-1; k>-1; k-- )
@@ -3615,7 +3622,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 			}
 
 			/* Adjust dual variable */
-			y[number] = 0.0;
+			y[getNV( )+number] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 87d88bf1126ff5a19b364e95442a0f36429b4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 45/59] fix: MEX interfaces released the Cholesky factor with
 the wrong operator

---
 interfaces/matlab/qpOASES.cpp          | 4 ++--
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES.cpp          | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index 5c5274f..ff59118 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -564,7 +564,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -590,7 +590,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							isSparse
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index b10aede..9c97a42 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -660,7 +660,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 0c1fd01..7c3c6c5 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -541,7 +541,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -566,7 +566,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,guessedConstraints,R
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 7ddfa32..84d6bc8 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -649,7 +649,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
-- 
2.43.0


From 484dec44158b7874f8066bd2b7d9becec7790c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 46/59] fix: MEX interfaces stored the CPU time of the last QP
 in the first column only

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 2 +-
 interfaces/octave/qpOASES_octave_utils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 5a10400..beae521 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -823,7 +823,7 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 						/* cpu time */
 						curField = mxGetField( auxOutput,0,"cpuTime" );
 						double* cpuTime = mxGetPr(curField);
-						cpuTime[0] = (double) _cpuTime;
+						cpuTime[k] = (double) _cpuTime;
 					}
 				}
 			}
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index bc48616..16b1c00 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -813,7 +813,7 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 						/* cpu time */
 						curField = mxGetField( auxOutput,0,"cpuTime" );
 						double* cpuTime = mxGetPr(curField);
-						cpuTime[0] = (double) _cpuTime;
+						cpuTime[k] = (double) _cpuTime;
 					}
 				}
 			}
-- 
2.43.0


From edfceda680f1575936e89402f5596922ff48d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 47/59] fix: MEX interfaces wrote a second output if only the
 handle was requested

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 6 ++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index beae521..8923dd2 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -688,6 +688,9 @@ returnValue allocateOutputs(	int nlhs, mxArray* plhs[], int_t nV, int_t nC = 0,
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleMatrix( 1, 1, mxREAL );
 
+	if ( nlhs <= curIdx )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	plhs[curIdx++] = mxCreateDoubleMatrix( nV, nP, mxREAL );
 
@@ -755,6 +758,9 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleScalar( handle );
 
+	if ( nlhs <= curIdx )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	double* x = mxGetPr( plhs[curIdx++] );
 	qp->getPrimalSolution( &(x[k*nV]) );
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 16b1c00..0d093de 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -678,6 +678,9 @@ returnValue allocateOutputs(	int nlhs, mxArray* plhs[], int_t nV, int_t nC = 0,
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleMatrix( 1, 1, mxREAL );
 
+	if ( nlhs <= curIdx )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	plhs[curIdx++] = mxCreateDoubleMatrix( nV, nP, mxREAL );
 
@@ -745,6 +748,9 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleScalar( handle );
 
+	if ( nlhs <= curIdx )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	double* x = mxGetPr( plhs[curIdx++] );
 	qp->getPrimalSolution( &(x[k*nV]) );
-- 
2.43.0


From 8101b451cb96e21de75307f3ddb069ebda9317af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 48/59] fix: MEX interfaces raised an error instead of
 returning the exit flag after matrices were changed

---
 interfaces/matlab/qpOASES_sequence.cpp | 12 +++---------
 interfaces/octave/qpOASES_sequence.cpp | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 9c97a42..0f8efc3 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -309,16 +309,10 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
-	switch (returnvalue)
+	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
-		case SUCCESSFUL_RETURN:
-		case RET_QP_UNBOUNDED:
-		case RET_QP_INFEASIBLE:
-			break;
-
-		default:
-			myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
-			return -1;
+		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
+		return -1;
 	}
 
 	/* 2) Assign lhs arguments. */
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 84d6bc8..c46cd03 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -309,16 +309,10 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
-	switch (returnvalue)
+	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
-		case SUCCESSFUL_RETURN:
-		case RET_QP_UNBOUNDED:
-		case RET_QP_INFEASIBLE:
-			break;
-
-		default:
-			myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
-			return -1;
+		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
+		return -1;
 	}
 
 	/* 2) Assign lhs arguments. */
-- 
2.43.0


From c4726833f18a87041986fd7155fb7d9b73be019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 49/59] fix: MEX interfaces allocated too few multipliers for
 equality problems with several right hand sides

---
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 0f8efc3..8220f4c 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -1054,7 +1054,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index c46cd03..d69bceb 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -1043,7 +1043,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
-- 
2.43.0


From 515b2b6d3dc1987ecf9af1b0fa595526d2d0ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 50/59] fix: MEX interfaces crashed if QPs without general
 constraints got new matrices or an equality problem

---
 interfaces/matlab/qpOASES_sequence.cpp | 12 ++++++++++++
 interfaces/octave/qpOASES_sequence.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 8220f4c..374408b 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -829,6 +829,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Handle refers to a QP without general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
 		
@@ -980,6 +986,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Handle refers to a QP without general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index d69bceb..79faf13 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -818,6 +818,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Handle refers to a QP without general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
 		
@@ -969,6 +975,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Handle refers to a QP without general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
-- 
2.43.0


From cd66d48e622cb93410ad335ae5a8678b73d53caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 51/59] fix: MEX interfaces read past constraint matrices with
 rows but without columns

---
 interfaces/matlab/qpOASES_sequence.cpp | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 374408b..453d185 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -542,7 +542,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( nC != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -902,7 +902,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( nC != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 79faf13..f80a751 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -537,7 +537,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( nC != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -891,7 +891,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( nC != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
-- 
2.43.0


From eb76f83aa51cfa8ad6377bf69cd86712dbc79824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 52/59] fix: MEX interfaces misread vectors and options that
 are not given in double precision

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 20 ++++++++++++++++----
 interfaces/octave/qpOASES_octave_utils.cpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 8923dd2..b4f1fbd 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -273,6 +273,12 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -359,6 +365,13 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	/* ensure that data is given in double precision */
+	if ( mxIsDouble( prhs[rhs_index] ) == 0 )
+	{
+		myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
@@ -422,7 +435,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) && ( mxIsDouble( optionName ) == true ) )
 	{
 		*optionValue = mxGetPr( optionName );
 		return BT_TRUE;
@@ -430,7 +443,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a double scalar, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
@@ -616,8 +629,7 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 			if ( mxIsScalar(curField) == false )
 				return RET_INVALID_ARGUMENTS;
 
-			double* hessianTypeTmp = mxGetPr(curField);
-			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
+			int_t hessianTypeInt = (int_t)mxGetScalar(curField);
 			if ( hessianTypeInt < 0 ) 
 				hessianTypeInt = 6; /* == HST_UNKNOWN */
 			if ( hessianTypeInt > 5 ) 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 0d093de..553df3d 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -263,6 +263,12 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -349,6 +355,13 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	/* ensure that data is given in double precision */
+	if ( mxIsDouble( prhs[rhs_index] ) == 0 )
+	{
+		myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
@@ -412,7 +425,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) && ( mxIsDouble( optionName ) == true ) )
 	{
 		*optionValue = mxGetPr( optionName );
 		return BT_TRUE;
@@ -420,7 +433,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a double scalar, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
@@ -606,8 +619,7 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 			if ( mxIsScalar(curField) == false )
 				return RET_INVALID_ARGUMENTS;
 
-			double* hessianTypeTmp = mxGetPr(curField);
-			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
+			int_t hessianTypeInt = (int_t)mxGetScalar(curField);
 			if ( hessianTypeInt < 0 ) 
 				hessianTypeInt = 6; /* == HST_UNKNOWN */
 			if ( hessianTypeInt > 5 ) 
-- 
2.43.0


From 9f177a5219384c6e332dbd619d72f8ce6d948a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 53/59] fix: MEX interfaces left out missing diagonal entries
 at the end of columns of sparse Hessians

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 8 ++++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index b4f1fbd..cabcab1 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -902,6 +902,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+			/* also add it if the column ends above the diagonal */
+			if ( needInsertDiag == BT_TRUE )
+			{
+				(*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+				(*Hv)[mat_jc[j+1] + nfill] = 0.0;
+				nfill++;
+			}
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 553df3d..0ab5f9b 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -892,6 +892,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+			/* also add it if the column ends above the diagonal */
+			if ( needInsertDiag == BT_TRUE )
+			{
+				(*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+				(*Hv)[mat_jc[j+1] + nfill] = 0.0;
+				nfill++;
+			}
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
-- 
2.43.0


From 99a75bce55058b7995027aad248e60eef08d1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 54/59] fix: MEX interfaces freed matrices that are still in
 use if new ones are rejected

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 38 ++++++++++++++++++++++
 interfaces/matlab/qpOASES_matlab_utils.hpp | 20 ++++++++++++
 interfaces/matlab/qpOASES_sequence.cpp     |  6 +++-
 interfaces/octave/qpOASES_octave_utils.cpp | 38 ++++++++++++++++++++++
 interfaces/octave/qpOASES_octave_utils.hpp | 20 ++++++++++++
 interfaces/octave/qpOASES_sequence.cpp     |  6 +++-
 6 files changed, 126 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index cabcab1..a783b3c 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -81,6 +81,7 @@ QPInstance::QPInstance(	uint_t _nV, uint_t _nC, HessianType _hessianType,
 QPInstance::~QPInstance( )
 {		
 	deleteQPMatrices();
+	deleteRetiredQPMatrices();
 
 	if ( sqp != 0 )
 	{
@@ -150,6 +151,43 @@ returnValue QPInstance::deleteQPMatrices( )
 }
 
 
+returnValue QPInstance::retireQPMatrices( )
+{
+	QPMatrices matrices = { H,A,Hir,Hjc,Air,Ajc,Hv,Av };
+	retired.push_back( matrices );
+
+	H = 0;
+	A = 0;
+	Hir = 0;
+	Hjc = 0;
+	Air = 0;
+	Ajc = 0;
+	Hv = 0;
+	Av = 0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue QPInstance::deleteRetiredQPMatrices( )
+{
+	for ( uint_t i=0; i<retired.size(); ++i )
+	{
+		delete retired[i].H;
+		delete retired[i].A;
+		delete[] retired[i].Hir;
+		delete[] retired[i].Hjc;
+		delete[] retired[i].Air;
+		delete[] retired[i].Ajc;
+		delete[] retired[i].Hv;
+		delete[] retired[i].Av;
+	}
+	retired.clear( );
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 int_t QPInstance::getNV() const
 {
     if ( sqp != 0 )
diff --git a/interfaces/matlab/qpOASES_matlab_utils.hpp b/interfaces/matlab/qpOASES_matlab_utils.hpp
index 9ad078e..9c09b4b 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.hpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.hpp
@@ -56,6 +56,22 @@
 #include <vector>
 
 
+/*
+ * Matrices of a QProblem instance
+ */
+struct QPMatrices
+{
+	SymmetricMatrix* H;
+	Matrix* A;
+	sparse_int_t* Hir;
+	sparse_int_t* Hjc;
+	sparse_int_t* Air;
+	sparse_int_t* Ajc;
+	real_t* Hv;
+	real_t* Av;
+};
+
+
 /*
  * QProblem instance class
  */
@@ -75,6 +91,8 @@ class QPInstance
 		~QPInstance( );
 	
 		returnValue deleteQPMatrices();
+		returnValue retireQPMatrices();
+		returnValue deleteRetiredQPMatrices();
 		
 		int_t getNV() const;
 		int_t getNC() const;
@@ -94,6 +112,8 @@ class QPInstance
 		sparse_int_t* Ajc;
 		real_t* Hv;
 		real_t* Av;
+
+		std::vector<QPMatrices> retired;
 };
 
 
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 453d185..92a6017 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -309,6 +309,9 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
+	if ( returnvalue == SUCCESSFUL_RETURN )
+		getQPInstance(handle)->deleteRetiredQPMatrices( );
+
 	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
 		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
@@ -931,7 +934,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if ( ( !mxIsEmpty( prhs[9] ) ) && ( mxIsStruct( prhs[9] ) ) )
 				setupOptions( &options,prhs[9],nWSRin,maxCpuTimeIn );
 
-		globalQP->deleteQPMatrices( );
+		/* former matrices remain in use if the new ones are rejected */
+		globalQP->retireQPMatrices( );
 
 		/* make a deep-copy of the user-specified Hessian matrix (possibly sparse) */
 		if ( H_idx >= 0 )
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 0ab5f9b..876964e 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -71,6 +71,7 @@ QPInstance::QPInstance(	uint_t _nV, uint_t _nC, HessianType _hessianType,
 QPInstance::~QPInstance( )
 {		
 	deleteQPMatrices();
+	deleteRetiredQPMatrices();
 
 	if ( sqp != 0 )
 	{
@@ -140,6 +141,43 @@ returnValue QPInstance::deleteQPMatrices( )
 }
 
 
+returnValue QPInstance::retireQPMatrices( )
+{
+	QPMatrices matrices = { H,A,Hir,Hjc,Air,Ajc,Hv,Av };
+	retired.push_back( matrices );
+
+	H = 0;
+	A = 0;
+	Hir = 0;
+	Hjc = 0;
+	Air = 0;
+	Ajc = 0;
+	Hv = 0;
+	Av = 0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue QPInstance::deleteRetiredQPMatrices( )
+{
+	for ( uint_t i=0; i<retired.size(); ++i )
+	{
+		delete retired[i].H;
+		delete retired[i].A;
+		delete[] retired[i].Hir;
+		delete[] retired[i].Hjc;
+		delete[] retired[i].Air;
+		delete[] retired[i].Ajc;
+		delete[] retired[i].Hv;
+		delete[] retired[i].Av;
+	}
+	retired.clear( );
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 int_t QPInstance::getNV() const
 {
     if ( sqp != 0 )
diff --git a/interfaces/octave/qpOASES_octave_utils.hpp b/interfaces/octave/qpOASES_octave_utils.hpp
index 0d77895..6320899 100644
--- a/interfaces/octave/qpOASES_octave_utils.hpp
+++ b/interfaces/octave/qpOASES_octave_utils.hpp
@@ -49,6 +49,22 @@
 #include <vector>
 
 
+/*
+ * Matrices of a QProblem instance
+ */
+struct QPMatrices
+{
+	SymmetricMatrix* H;
+	Matrix* A;
+	sparse_int_t* Hir;
+	sparse_int_t* Hjc;
+	sparse_int_t* Air;
+	sparse_int_t* Ajc;
+	real_t* Hv;
+	real_t* Av;
+};
+
+
 /*
  * QProblem instance class
  */
@@ -67,6 +83,8 @@ class QPInstance
 		~QPInstance( );
 	
 		returnValue deleteQPMatrices();
+		returnValue retireQPMatrices();
+		returnValue deleteRetiredQPMatrices();
 		
 		int_t getNV() const;
 		int_t getNC() const;
@@ -85,6 +103,8 @@ class QPInstance
 		sparse_int_t* Ajc;
 		real_t* Hv;
 		real_t* Av;
+
+		std::vector<QPMatrices> retired;
 };
 
 
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index f80a751..a9c4ade 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -309,6 +309,9 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
+	if ( returnvalue == SUCCESSFUL_RETURN )
+		getQPInstance(handle)->deleteRetiredQPMatrices( );
+
 	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
 		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
@@ -920,7 +923,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if ( ( !mxIsEmpty( prhs[9] ) ) && ( mxIsStruct( prhs[9] ) ) )
 				setupOptions( &options,prhs[9],nWSRin,maxCpuTimeIn );
 
-		globalQP->deleteQPMatrices( );
+		/* former matrices remain in use if the new ones are rejected */
+		globalQP->retireQPMatrices( );
 
 		/* make a deep-copy of the user-specified Hessian matrix (possibly sparse) */
 		if ( H_idx >= 0 )
-- 
2.43.0


From cf00ec8a46263af753903fd4efd7bd49acba5e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 55/59] fix: Schur complement solver overran its multiplier
 array if more constraints than variables are active

---
 src/SQProblemSchur.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index ffb2902..13a1878 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -990,7 +990,7 @@ returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatu
 	int_t* AC_idx;
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
-	real_t* num = new real_t[nV];
+	real_t* num = new real_t[getMax( nAC,nFX )];
 
 	real_t y_min = options.maxDualJump;
 	int_t y_min_number = -1;
@@ -1400,7 +1400,7 @@ returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_s
 	int_t* AC_idx;
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
-	real_t* num = new real_t[nV];
+	real_t* num = new real_t[getMax( nAC,nFX )];
 
 	real_t y_min = options.maxDualJump;
 	int_t y_min_number = -1;
-- 
2.43.0


From b81e6ac4e67f66ec5a711d467ddd6c0314b66219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 56/59] fix: infinite bounds turned into NaNs when they were
 shifted or into wrong verdicts

---
 include/qpOASES/QProblem.ipp  | 18 +++++++++++++++--
 include/qpOASES/QProblemB.ipp | 18 +++++++++++++++--
 src/QProblem.cpp              | 38 ++++++++++++++++-------------------
 src/QProblemB.cpp             | 34 ++++++++++++++-----------------
 4 files changed, 64 insertions(+), 44 deletions(-)

diff --git a/include/qpOASES/QProblem.ipp b/include/qpOASES/QProblem.ipp
index 611fa31..443369d 100644
--- a/include/qpOASES/QProblem.ipp
+++ b/include/qpOASES/QProblem.ipp
@@ -195,6 +195,13 @@ inline returnValue QProblem::setLBA( const real_t* const lbA_new )
 	if ( lbA_new != 0 )
 	{	
 		memcpy( lbA,lbA_new,nC*sizeof(real_t) );
+
+		/* (shifting infinite values yields NaNs) */
+		for( i=0; i<nC; ++i )
+		{
+			if ( lbA[i] < -INFTY )
+				lbA[i] = -INFTY;
+		}
 	}
 	else
 	{
@@ -220,7 +227,7 @@ inline returnValue QProblem::setLBA( int_t number, real_t value )
 
 	if ( ( number >= 0 ) && ( number < nC ) )
 	{
-		lbA[number] = value;
+		lbA[number] = ( value < -INFTY ) ? -INFTY : value;
 		return SUCCESSFUL_RETURN;
 	}
 	else
@@ -243,6 +250,13 @@ inline returnValue QProblem::setUBA( const real_t* const ubA_new )
 	if ( ubA_new != 0 )
 	{
 		memcpy( ubA,ubA_new,nC*sizeof(real_t) );
+
+		/* (shifting infinite values yields NaNs) */
+		for( i=0; i<nC; ++i )
+		{
+			if ( ubA[i] > INFTY )
+				ubA[i] = INFTY;
+		}
 	}
 	else
 	{
@@ -268,7 +282,7 @@ inline returnValue QProblem::setUBA( int_t number, real_t value )
 
 	if ( ( number >= 0 ) && ( number < nC ) )
 	{
-		ubA[number] = value;
+		ubA[number] = ( value > INFTY ) ? INFTY : value;
 		return SUCCESSFUL_RETURN;
 	}
 	else
diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 6831374..9e7e5d3 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -320,6 +320,13 @@ inline returnValue QProblemB::setLB( const real_t* const lb_new )
 	if ( lb_new != 0 )
 	{
 		memcpy( lb,lb_new,nV*sizeof(real_t) );
+
+		/* (shifting infinite values yields NaNs) */
+		for( i=0; i<nV; ++i )
+		{
+			if ( lb[i] < -INFTY )
+				lb[i] = -INFTY;
+		}
 	}
 	else
 	{
@@ -344,7 +351,7 @@ inline returnValue QProblemB::setLB( int_t number, real_t value )
 
 	if ( ( number >= 0 ) && ( number < nV ) )
 	{
-		lb[number] = value;
+		lb[number] = ( value < -INFTY ) ? -INFTY : value;
 		return SUCCESSFUL_RETURN;
 	}
 	else
@@ -368,6 +375,13 @@ inline returnValue QProblemB::setUB( const real_t* const ub_new )
 	if ( ub_new != 0 )
 	{
 		memcpy( ub,ub_new,nV*sizeof(real_t) );
+
+		/* (shifting infinite values yields NaNs) */
+		for( i=0; i<nV; ++i )
+		{
+			if ( ub[i] > INFTY )
+				ub[i] = INFTY;
+		}
 	}
 	else
 	{
@@ -392,7 +406,7 @@ inline returnValue QProblemB::setUB( int_t number, real_t value )
 
 	if ( ( number >= 0 ) && ( number < nV ) )
 	{
-		ub[number] = value;
+		ub[number] = ( value > INFTY ) ? INFTY : value;
 
 		return SUCCESSFUL_RETURN;
 	}
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f868ee7..afd60b1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1721,8 +1721,8 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 			{
 				if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( constraints.getType( i ) != ST_UNBOUNDED ) )
 				{
-					real_t lower = ( lbA_new != 0 ) ? lbA_new[i] : -INFTY;
-					real_t upper = ( ubA_new != 0 ) ? ubA_new[i] :  INFTY;
+					real_t lower = ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) ) ? lbA_new[i] : -INFTY;
+					real_t upper = ( ( ubA_new != 0 ) && ( ubA_new[i] <  INFTY ) ) ? ubA_new[i] :  INFTY;
 
 					if ( Ax[i] - lower >= options.epsNum )
 					{
@@ -4910,7 +4910,7 @@ returnValue QProblem::determineDataShift(	const real_t* const g_new, const real_
 	{
 		/* if lower constraints' bounds are to be disabled or do not exist, shift them to -infinity */
 		if ( lbA_new != 0 )
-			delta_lbA[i] = lbA_new[i] - lbA[i];
+			delta_lbA[i] = ( ( lbA_new[i] < -INFTY ) ? -INFTY : lbA_new[i] ) - lbA[i];
 		else
 			delta_lbA[i] = -INFTY - lbA[i];
 	}
@@ -4919,7 +4919,7 @@ returnValue QProblem::determineDataShift(	const real_t* const g_new, const real_
 	{
 		/* if upper constraints' bounds are to be disabled or do not exist, shift them to infinity */
 		if ( ubA_new != 0 )
-			delta_ubA[i] = ubA_new[i] - ubA[i];
+			delta_ubA[i] = ( ( ubA_new[i] > INFTY ) ? INFTY : ubA_new[i] ) - ubA[i];
 		else
 			delta_ubA[i] = INFTY - ubA[i];
 	}
@@ -5692,33 +5692,29 @@ real_t QProblem::getRelativeHomotopyLength(	const real_t* const g_new, const rea
 	int_t i;
 	int_t nC = getNC( );
 	real_t len = QProblemB::getRelativeHomotopyLength( g_new,lb_new,ub_new );
-	real_t d, s;
+	real_t d, s, v;
 
 	/*fprintf( stdFile, "len in homotopyLength = %.3e\n",len ); */
 
 	/* lower constraint bounds */
-	if ( lbA_new != 0 )
+	for (i = 0; i < nC; i++)
 	{
-		for (i = 0; i < nC; i++)
-		{
-			s = getAbs(lbA_new[i]);
-			if (s < 1.0) s = 1.0;
-			d = getAbs(lbA_new[i] - lbA[i]) / s;
-			if (d > len) len = d;
-		}
+		v = ( ( lbA_new == 0 ) || ( lbA_new[i] < -INFTY ) ) ? -INFTY : lbA_new[i];
+		s = getAbs(v);
+		if (s < 1.0) s = 1.0;
+		d = getAbs(v - lbA[i]) / s;
+		if (d > len) len = d;
 	}
 	/*fprintf( stdFile, "len in homotopyLength = %.3e\n",len ); */
 
 	/* upper constraint bounds */
-	if ( ubA_new != 0 )
+	for (i = 0; i < nC; i++)
 	{
-		for (i = 0; i < nC; i++)
-		{
-			s = getAbs(ubA_new[i]);
-			if (s < 1.0) s = 1.0;
-			d = getAbs(ubA_new[i] - ubA[i]) / s;
-			if (d > len) len = d;
-		}
+		v = ( ( ubA_new == 0 ) || ( ubA_new[i] > INFTY ) ) ? INFTY : ubA_new[i];
+		s = getAbs(v);
+		if (s < 1.0) s = 1.0;
+		d = getAbs(v - ubA[i]) / s;
+		if (d > len) len = d;
 	}
 	/*fprintf( stdFile, "len in homotopyLength = %.3e\n",len ); */
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1278bfd..8460e2f 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1814,7 +1814,7 @@ returnValue QProblemB::determineDataShift(	const real_t* const g_new, const real
 	if ( lb_new != 0 )
 	{
 		for( i=0; i<nV; ++i )
-			delta_lb[i] = lb_new[i] - lb[i];
+			delta_lb[i] = ( ( lb_new[i] < -INFTY ) ? -INFTY : lb_new[i] ) - lb[i];
 	}
 	else
 	{
@@ -1826,7 +1826,7 @@ returnValue QProblemB::determineDataShift(	const real_t* const g_new, const real
 	if ( ub_new != 0 )
 	{
 		for( i=0; i<nV; ++i )
-			delta_ub[i] = ub_new[i] - ub[i];
+			delta_ub[i] = ( ( ub_new[i] > INFTY ) ? INFTY : ub_new[i] ) - ub[i];
 	}
 	else
 	{
@@ -2238,7 +2238,7 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 {
 	int_t i;
 	int_t nV = getNV( );
-	real_t d, s, len = 0.0;
+	real_t d, s, v, len = 0.0;
 
 	/* gradient */
 	for (i = 0; i < nV; i++)
@@ -2251,28 +2251,24 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 	/*fprintf( stderr, "homLen = %e\n", len );*/
 
 	/* lower bounds */
-	if ( lb_new != 0 )
+	for (i = 0; i < nV; i++)
 	{
-		for (i = 0; i < nV; i++)
-		{
-			s = getAbs(lb_new[i]);
-			if (s < 1.0) s = 1.0;
-			d = getAbs(lb_new[i] - lb[i]) / s;
-			if (d > len) len = d;
-		}
+		v = ( ( lb_new == 0 ) || ( lb_new[i] < -INFTY ) ) ? -INFTY : lb_new[i];
+		s = getAbs(v);
+		if (s < 1.0) s = 1.0;
+		d = getAbs(v - lb[i]) / s;
+		if (d > len) len = d;
 	}
 	/*fprintf( stderr, "homLen = %e\n", len );*/
 
 	/* upper bounds */
-	if ( ub_new != 0 )
+	for (i = 0; i < nV; i++)
 	{
-		for (i = 0; i < nV; i++)
-		{
-			s = getAbs(ub_new[i]);
-			if (s < 1.0) s = 1.0;
-			d = getAbs(ub_new[i] - ub[i]) / s;
-			if (d > len) len = d;
-		}
+		v = ( ( ub_new == 0 ) || ( ub_new[i] > INFTY ) ) ? INFTY : ub_new[i];
+		s = getAbs(v);
+		if (s < 1.0) s = 1.0;
+		d = getAbs(v - ub[i]) / s;
+		if (d > len) len = d;
 	}
 	/*fprintf( stderr, "homLen = %e\n", len );*/
 
-- 
2.43.0


From 28ecd9c1fba58f007063a549ffb324ae53d1b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 57/59] fix: the curvature check of SolutionAnalysis left the
 sparse factorisation of another working set behind

---
 src/SolutionAnalysis.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 0eaa733..b8434bd 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -551,6 +551,7 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   real_t eps = 1.0e-16;
   returnValue ret;
   Bounds saveBounds;
+  Constraints saveConstraints;
   QProblemStatus saveStatus;
   int_t k, neig, nAC, nFX, *FX_idx;
 
@@ -561,8 +562,9 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   if( nFX == 0 )
     return SUCCESSFUL_RETURN;
 
-  // Get active bounds (deep copy)
+  // Get active bounds and constraints (deep copy)
   qp->getBounds( saveBounds );
+  qp->getConstraints( saveConstraints );
   saveBounds.getFixed( )->getNumberArray( &FX_idx );
 
   // We have to change the status to modify the active set
@@ -573,7 +575,11 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   for( k=0; k<nFX; k++ )
     if( getAbs(qp->x[FX_idx[k]]) > eps )
       if ( qp->bounds.moveFixedToFree( FX_idx[k] ) != SUCCESSFUL_RETURN )
+      {
+	qp->bounds = saveBounds;
+	qp->status = saveStatus;
 	return THROWERROR( RET_REMOVEBOUND_FAILED );
+      }
 
   // Do a new factorization and check the inertia
   ret = qp->resetSchurComplement( BT_FALSE );
@@ -581,10 +587,11 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   if( ret == SUCCESSFUL_RETURN && neig != nAC )
     ret = RET_INERTIA_CORRECTION_FAILED;
 
-  // Add all bounds that have been removed
-  for( k=0; k<nFX; k++ )
-    if( qp->bounds.getStatus( FX_idx[k] ) == ST_INACTIVE )
-      qp->bounds.moveFreeToFixed( FX_idx[k], saveBounds.getStatus( FX_idx[k] ) );
+  // Restore the active set along with its factorization
+  qp->bounds = saveBounds;
+  qp->constraints = saveConstraints;
+  if ( qp->resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN )
+    ret = RET_MATRIX_FACTORISATION_FAILED;
 
   qp->status = saveStatus;
   return ret;
-- 
2.43.0


From e653921319bc84305eda95d18c1c80599b3a981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 58/59] fix: objective value of regularised problems counted
 the regularisation

---
 src/QProblemB.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 8460e2f..c54808c 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -779,15 +779,13 @@ real_t QProblemB::getObjVal( const real_t* const _x ) const
 			break;
 	}
 
-	/* When using regularisation, the objective function value
-	 * needs to be modified as follows:
-	 * objVal = objVal - 0.5*_x*(Hmod-H)*_x - _x'*(gMod-g)
-	 *        = objVal - 0.5*_x*eps*_x * - _x'*(-eps*_x)
-	 *        = objVal + 0.5*_x*eps*_x */
-	if ( usingRegularisation( ) == BT_TRUE )
+	/* A regularised Hessian differs from the original one by regVal*Id
+	 * (a zero Hessian is regularised implicitly only):
+	 * objVal = objVal - 0.5*_x'*(Hmod-H)*_x */
+	if ( ( usingRegularisation( ) == BT_TRUE ) && ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
 	{
 		for( i=0; i<nV; ++i )
-			objVal += 0.5*_x[i]*regVal*_x[i];
+			objVal -= 0.5*_x[i]*regVal*_x[i];
 	}
 
 	return objVal;
-- 
2.43.0


From c5ba3b6406c18e76cd271942d33ef7867e244989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 59/59] fix: flipping bounds of regularised linear programs
 could cycle

---
 src/QProblemB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index c54808c..ac38b71 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3821,7 +3821,8 @@ returnValue QProblemB::removeBound(	int_t number,
 		delete[] rhs; delete[] r;
 	}
 
-	if ( ( hessianType == HST_ZERO ) && ( options.enableFlippingBounds == BT_TRUE ) )
+	/* A regularised zero Hessian has curvature, its bounds must not be flipped. */
+	if ( ( hessianType == HST_ZERO ) && ( usingRegularisation( ) == BT_FALSE ) && ( options.enableFlippingBounds == BT_TRUE ) )
 	{
 		flipper.get( &bounds,R );
 		bounds.flipFixed(number);
-- 
2.43.0

