From 1a8668ccc14463d3da5868ba42235876c7db62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:39 +0000
Subject: [PATCH 01/17] fix: report every exception through the C API error
 code instead of letting it escape

MoorDyn_Init, MoorDyn_Init_NoIC, MoorDyn_Step, MoorDyn_SetLogFile,
MoorDyn_ExternalWaveKinGetCoordinates, MoorDyn_ExternalWaveKinSet,
MoorDyn_SetTimeScheme, MoorDyn_SetLinePressInt, MoorDyn_GetLineFairTen and
MoorDyn_GetLineMaxTen could let C++ exceptions cross the C boundary, and
MOORDYN_CATCHER did not handle non_implemented_error nor the exceptions of the
standard library (e.g. std::stoi on malformed input).
---
 source/Line.cpp     | 39 +++++++++++++------
 source/Misc.hpp     | 16 ++++++--
 source/MoorDyn2.cpp | 94 +++++++++++++++++++++++++++++++++++----------
 source/Waves.cpp    | 12 +++---
 4 files changed, 121 insertions(+), 40 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..1e59119 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1665,8 +1665,13 @@ MoorDyn_SetLinePressInt(MoorDynLine l, const double* p)
 	std::vector<moordyn::real> pin(n);
 	for (unsigned int i = 0; i < n; i++)
 		pin[i] = (moordyn::real)p[i];
-	((moordyn::Line*)l)->setPin(pin);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::Line*)l)->setPin(pin);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	return err;
 }
 
 int DECLDIR
@@ -1827,22 +1832,34 @@ int DECLDIR
 MoorDyn_GetLineFairTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
-	*t = ((moordyn::Line*)l)->getNodeTen(((moordyn::Line*)l)->getN()).norm();
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		*t =
+		    ((moordyn::Line*)l)->getNodeTen(((moordyn::Line*)l)->getN()).norm();
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	return err;
 }
 
 int DECLDIR
 MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
-	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
-		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
-		if (t_candidate > t_max)
-			t_max = t_candidate;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		double t_max = 0.0;
+		for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+			const double t_candidate =
+			    ((moordyn::Line*)l)->getNodeTen(i).norm();
+			if (t_candidate > t_max)
+				t_max = t_candidate;
+		}
+		*t = t_max;
 	}
-	*t = t_max;
-	return MOORDYN_SUCCESS;
+	MOORDYN_CATCHER(err, err_msg);
+	return err;
 }
 
 int DECLDIR
diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..7f068f0 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -602,9 +602,9 @@ MAKE_EXCEPTION(unhandled_error)
 	}
 
 /// Catch thrown exceptions and convert them in an error_id. It also gives the
-/// message on the Exception. This macro will only handle known exceptions, i.e.
-/// the ones declared in moordyn_errors. You can add more catch() instances
-/// afterwards
+/// message on the Exception. The exceptions declared in moordyn_errors are
+/// mapped to their own error_id, while any other standard exception is reported
+/// as MOORDYN_UNHANDLED_ERROR
 #define MOORDYN_CATCHER(err, msg)                                              \
 	catch (moordyn::input_file_error const& e)                                 \
 	{                                                                          \
@@ -636,7 +636,17 @@ MAKE_EXCEPTION(unhandled_error)
 		err = MOORDYN_INVALID_VALUE;                                           \
 		msg = e.what();                                                        \
 	}                                                                          \
+	catch (moordyn::non_implemented_error const& e)                            \
+	{                                                                          \
+		err = MOORDYN_NON_IMPLEMENTED;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..6238b0f 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2369,8 +2369,17 @@ int DECLDIR
 MoorDyn_SetLogFile(MoorDyn system, const char* log_path)
 {
 	CHECK_SYSTEM(system);
-	((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2401,14 +2410,34 @@ int DECLDIR
 MoorDyn_Init(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
 MoorDyn_Init_NoIC(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2420,7 +2449,17 @@ MoorDyn_Step(MoorDyn system,
              double* dt)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2478,15 +2517,23 @@ MoorDyn_ExternalWaveKinGetCoordinates(MoorDyn system, double* r)
 {
 	CHECK_SYSTEM(system);
 
-	auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
-	for (unsigned int i = 0; i < r_list.size(); i++) {
-		const auto r_i = r_list[i];
-		for (unsigned int j = 0; j < 3; j++) {
-			r[3 * i + j] = r_i[j];
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
+		for (unsigned int i = 0; i < r_list.size(); i++) {
+			const auto r_i = r_list[i];
+			for (unsigned int j = 0; j < 3; j++) {
+				r[3 * i + j] = r_i[j];
+			}
 		}
 	}
-
-	return MOORDYN_SUCCESS;
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2512,8 +2559,17 @@ MoorDyn_ExternalWaveKinSet(MoorDyn system,
 		ud.push_back(moordyn::vec(Ud[3 * i], Ud[3 * i + 1], Ud[3 * i + 2]));
 	}
 
-	((moordyn::MoorDyn*)system)->ExternalWaveKinSet(u, ud, t);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->ExternalWaveKinSet(u, ud, t);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2687,18 +2743,16 @@ MoorDyn_SetTimeScheme(MoorDyn system, const char* name)
 	moordyn::TimeScheme* tscheme;
 	try {
 		tscheme = create_time_scheme(name, sys->GetLogger(), sys->GetWaves());
+		auto state = sys->GetTimeScheme()->GetState();
+		sys->SetTimeScheme(tscheme);
+		tscheme->SetState(state);
 	}
 	MOORDYN_CATCHER(err, err_msg);
 	if (err != MOORDYN_SUCCESS) {
 		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
 		     << err_msg << endl;
-		return err;
 	}
-	auto state = sys->GetTimeScheme()->GetState();
-	sys->SetTimeScheme(tscheme);
-	tscheme->SetState(state);
-
-	return MOORDYN_SUCCESS;
+	return err;
 }
 
 int DECLDIR
diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..044ae28 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -517,8 +517,8 @@ Waves::addLine(moordyn::Line* line)
 		// method
 		genericAdd(line, num_nodes, waveKin.lines);
 	} else {
-		throw "the lines id should be equal to its index in the lines "
-		      "array";
+		throw moordyn::invalid_value_error("the lines id should be equal to its index in the lines "
+		      "array");
 	}
 }
 void
@@ -530,7 +530,7 @@ Waves::addRod(moordyn::Rod* rod)
 		// TODO - only do this when needed, see comment in addLIne
 		genericAdd(rod, num_nodes, waveKin.rods);
 	} else {
-		throw "the rod id should be equal to its index in the rod array";
+		throw moordyn::invalid_value_error("the rod id should be equal to its index in the rod array");
 	}
 }
 void
@@ -542,7 +542,7 @@ Waves::addBody(moordyn::Body* body)
 		// TODO - only do this when needed, see comment in addLIne
 		genericAdd(body, num_nodes, waveKin.bodies);
 	} else {
-		throw "the body id should be equal to its index in the body array";
+		throw moordyn::invalid_value_error("the body id should be equal to its index in the body array");
 	}
 }
 
@@ -555,8 +555,8 @@ Waves::addPoint(moordyn::Point* point)
 		// TODO - only do this when needed, see comment in addLIne
 		genericAdd(point, num_nodes, waveKin.points);
 	} else {
-		throw "the point id should be equal to its index in the "
-		      "point array";
+		throw moordyn::invalid_value_error("the point id should be equal to its index in the "
+		      "point array");
 	}
 }
 
-- 
2.43.0


From 8a0022d53b6b40731a160f7c22754dea55aeec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:29 +0000
Subject: [PATCH 02/17] fix: subtract, instead of adding, the states of free
 bodies and rods

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..8d4f209 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From f2ed9d99a9e3be5320cb3fd5aeaf3bb9a08c060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 03/17] fix: Wilson-theta steps advance the clock by dt and
 integrate the velocity over tau

---
 source/State.cpp | 8 ++++----
 source/Time.cpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 8d4f209..5750e3c 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -507,7 +507,7 @@ StateVarDeriv<vec>::Wilson(
 	StateVarDeriv<vec> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -520,7 +520,7 @@ StateVarDeriv<vec6>::Wilson(
 	StateVarDeriv<vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -535,7 +535,7 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
+	ret.vel = vel + XYZQuat::fromVec6(0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
 	return ret;
 }
@@ -555,7 +555,7 @@ StateVarDeriv<std::vector<vec>>::Wilson(
 	const real f3 = 1.0 / 3.0 * f;
 	for (unsigned int i = 0; i < vel.size(); i++) {
 		ret.acc.push_back((1 - f2) * acc[i] + f2 * visitor.acc[i]);
-		ret.vel.push_back(vel[i] + 0.5 * dt * (
+		ret.vel.push_back(vel[i] + 0.5 * tau * (
 			(1 - f3) * acc[i] + f3 * visitor.acc[i]));
 	}
 	return ret;
diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..e89731b 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -794,7 +794,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t -= (_theta - 1.f) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From 7649d42f92a0bb9833ba7c5ff219404c59692eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:42 +0000
Subject: [PATCH 04/17] fix: reject null coupled kinematics in Init and Step
 instead of dereferencing them

---
 source/MoorDyn2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 6238b0f..1f63198 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
+		       << "MoorDyn::Init received a Null position or velocity vector, "
 		       << "but " << NCoupledDOF() << "components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -629,6 +630,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
-- 
2.43.0


From 5ff879669dec3bb9b23d1db99e7d2cc63b92fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 05/17] fix: copy all six rows of 6x6 matrices from and to C
 arrays

---
 source/Misc.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index 7f068f0..fa07580 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -440,6 +440,24 @@ mat62array(const mat6& v, T a[6][6])
 	a[2][3] = (T)v(2, 3);
 	a[2][4] = (T)v(2, 4);
 	a[2][5] = (T)v(2, 5);
+	a[3][0] = (T)v(3, 0);
+	a[3][1] = (T)v(3, 1);
+	a[3][2] = (T)v(3, 2);
+	a[3][3] = (T)v(3, 3);
+	a[3][4] = (T)v(3, 4);
+	a[3][5] = (T)v(3, 5);
+	a[4][0] = (T)v(4, 0);
+	a[4][1] = (T)v(4, 1);
+	a[4][2] = (T)v(4, 2);
+	a[4][3] = (T)v(4, 3);
+	a[4][4] = (T)v(4, 4);
+	a[4][5] = (T)v(4, 5);
+	a[5][0] = (T)v(5, 0);
+	a[5][1] = (T)v(5, 1);
+	a[5][2] = (T)v(5, 2);
+	a[5][3] = (T)v(5, 3);
+	a[5][4] = (T)v(5, 4);
+	a[5][5] = (T)v(5, 5);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -468,6 +486,24 @@ array2mat6(const T a[6][6], mat6& v)
 	v(2, 3) = (moordyn::real)a[2][3];
 	v(2, 4) = (moordyn::real)a[2][4];
 	v(2, 5) = (moordyn::real)a[2][5];
+	v(3, 0) = (moordyn::real)a[3][0];
+	v(3, 1) = (moordyn::real)a[3][1];
+	v(3, 2) = (moordyn::real)a[3][2];
+	v(3, 3) = (moordyn::real)a[3][3];
+	v(3, 4) = (moordyn::real)a[3][4];
+	v(3, 5) = (moordyn::real)a[3][5];
+	v(4, 0) = (moordyn::real)a[4][0];
+	v(4, 1) = (moordyn::real)a[4][1];
+	v(4, 2) = (moordyn::real)a[4][2];
+	v(4, 3) = (moordyn::real)a[4][3];
+	v(4, 4) = (moordyn::real)a[4][4];
+	v(4, 5) = (moordyn::real)a[4][5];
+	v(5, 0) = (moordyn::real)a[5][0];
+	v(5, 1) = (moordyn::real)a[5][1];
+	v(5, 2) = (moordyn::real)a[5][2];
+	v(5, 3) = (moordyn::real)a[5][3];
+	v(5, 4) = (moordyn::real)a[5][4];
+	v(5, 5) = (moordyn::real)a[5][5];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From 5b0beb8e4bed415fc1397b2429d107fb87d1ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 06/17] fix: do not add the bending stiffness force to the
 reported seabed force of line nodes

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..f446527 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From 1945b77ae68a196314945cdd2fd245837e2ef84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 07/17] fix: report a constant stiffness when there is no
 stiffness curve, not the opposite

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index f446527..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From f519ba00c681fa9725f20ca5e034d00f11d96c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 08/17] fix: consider the end B node in the maximum tension of
 a line

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 1e59119..160b8b7 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1850,7 +1850,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 	string err_msg;
 	try {
 		double t_max = 0.0;
-		for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+		for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 			const double t_candidate =
 			    ((moordyn::Line*)l)->getNodeTen(i).norm();
 			if (t_candidate > t_max)
-- 
2.43.0


From c89baafc9bbf17de1cbc280de1a4b2696cf5084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:41 +0000
Subject: [PATCH 09/17] fix: erase the state of the removed object, not the one
 of the loop counter

The inner loop variable shadowed the index of the removed entity
---
 source/Time.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..baa9dfd 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -366,10 +366,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].lines.erase(r[i].lines.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].lines.erase(rd[i].lines.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].lines.erase(r[j].lines.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].lines.erase(rd[j].lines.begin() + i);
 		_calc_mask.lines.erase(_calc_mask.lines.begin() + i);
 		return i;
 	}
@@ -416,10 +416,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].points.erase(r[i].points.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].points.erase(rd[i].points.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].points.erase(r[j].points.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].points.erase(rd[j].points.begin() + i);
 		_calc_mask.points.erase(_calc_mask.points.begin() + i);
 		return i;
 	}
@@ -466,10 +466,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].rods.erase(r[i].rods.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].rods.erase(rd[i].rods.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].rods.erase(r[j].rods.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].rods.erase(rd[j].rods.begin() + i);
 		_calc_mask.rods.erase(_calc_mask.rods.begin() + i);
 		return i;
 	}
@@ -516,10 +516,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].bodies.erase(r[i].bodies.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].bodies.erase(rd[i].bodies.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].bodies.erase(r[j].bodies.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].bodies.erase(rd[j].bodies.begin() + i);
 		_calc_mask.bodies.erase(_calc_mask.bodies.begin() + i);
 		return i;
 	}
-- 
2.43.0


From a1755813c681af70ae915b03edebc31595340073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:41 +0000
Subject: [PATCH 10/17] fix: save and restore the line properties that the API
 can change along a run

---
 source/Line.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 160b8b7..4477510 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1416,6 +1416,13 @@ Line::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	// The properties that can be modified along the simulation
+	data.push_back(io::IO::Serialize(E));
+	data.push_back(io::IO::Serialize(UnstrLen));
+	data.push_back(io::IO::Serialize(UnstrLend));
+	data.push_back(io::IO::Serialize((uint64_t)isPb));
+	subdata = io::IO::Serialize(pin);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1446,6 +1453,13 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, B);
 	ptr = io::IO::Deserialize(ptr, Fnet);
 	ptr = io::IO::Deserialize(ptr, F);
+	ptr = io::IO::Deserialize(ptr, E);
+	ptr = io::IO::Deserialize(ptr, UnstrLen);
+	ptr = io::IO::Deserialize(ptr, UnstrLend);
+	uint64_t pb;
+	ptr = io::IO::Deserialize(ptr, pb);
+	isPb = pb != 0;
+	ptr = io::IO::Deserialize(ptr, pin);
 
 	return ptr;
 }
-- 
2.43.0


From 5e907c9c6398286c3d83c002b93d68eea689ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:20 +0000
Subject: [PATCH 11/17] fix: save and restore the local time stepping counters

---
 source/Time.hpp | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/source/Time.hpp b/source/Time.hpp
index baa9dfd..855b78d 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -890,6 +890,47 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Produce the packed data to be saved
+	 *
+	 * The produced data can be used afterwards to restore the saved information
+	 * afterwards calling Deserialize(void).
+	 * @return The packed data
+	 */
+	virtual std::vector<uint64_t> Serialize(void)
+	{
+		std::vector<uint64_t> data =
+		    TimeSchemeBase<NSTATE, NDERIV>::Serialize();
+		// We append the counters of already integrated time
+		std::vector<uint64_t> subdata = io::IO::Serialize(_dt.lines);
+		data.insert(data.end(), subdata.begin(), subdata.end());
+		subdata = io::IO::Serialize(_dt.points);
+		data.insert(data.end(), subdata.begin(), subdata.end());
+		subdata = io::IO::Serialize(_dt.rods);
+		data.insert(data.end(), subdata.begin(), subdata.end());
+		subdata = io::IO::Serialize(_dt.bodies);
+		data.insert(data.end(), subdata.begin(), subdata.end());
+
+		return data;
+	}
+
+	/** @brief Unpack the data to restore the Serialized information
+	 *
+	 * This is the function that each inherited class must implement, and should
+	 * be the inverse of Serialize(void)
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 */
+	virtual uint64_t* Deserialize(const uint64_t* data)
+	{
+		uint64_t* ptr = TimeSchemeBase<NSTATE, NDERIV>::Deserialize(data);
+		ptr = io::IO::Deserialize(ptr, _dt.lines);
+		ptr = io::IO::Deserialize(ptr, _dt.points);
+		ptr = io::IO::Deserialize(ptr, _dt.rods);
+		ptr = io::IO::Deserialize(ptr, _dt.bodies);
+
+		return ptr;
+	}
+
   protected:
 	/** @brief Costructor
 	 * @param log Logging handler
@@ -1081,7 +1122,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual std::vector<uint64_t> Serialize(void)
 	{
-		std::vector<uint64_t> data = TimeSchemeBase::Serialize();
+		std::vector<uint64_t> data = LocalTimeSchemeBase::Serialize();
 		// We append the number of available steps
 		data.push_back(io::IO::Serialize((uint64_t)n_steps));
 
@@ -1097,7 +1138,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual uint64_t* Deserialize(const uint64_t* data)
 	{
-		uint64_t* ptr = TimeSchemeBase::Deserialize(data);
+		uint64_t* ptr = LocalTimeSchemeBase::Deserialize(data);
 		uint64_t n;
 		ptr = io::IO::Deserialize(ptr, n);
 		n_steps = n;
-- 
2.43.0


From 8563f5a3a7d4840e9031192fca70078b59f9cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 12/17] fix: read the second column of the stiffness, damping
 and bending curves

---
 source/MoorDyn2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..9e9a286 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -740,7 +740,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
@@ -775,7 +775,7 @@ class MoorDyn final : public io::IO
 
 		if (xv.size() == 1) {
 			*c = yv.back();
-			n = 0;
+			*n = 0;
 			return MOORDYN_SUCCESS;
 		}
 
-- 
2.43.0


From fe3dc4c0c4c100a77a51475aea08e4b33144fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 13/17] fix: take the first of three or six body drag areas

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 1f63198..5c0dcdf 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1866,12 +1866,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From 3d805cb790a9c6adaeca766d13d4129efea17cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:16 +0000
Subject: [PATCH 14/17] fix: accept curve files ending in a line break

---
 source/MoorDyn2.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 9e9a286..275d97c 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -719,13 +719,15 @@ class MoorDyn final : public io::IO
 			getline(f, fline);
 			if (i>2) { // skip first three lines as headers 
 				moordyn::str::rtrim(fline);
-				flines.push_back(fline);
+				// a file ending in a line break has an empty last line
+				if (!fline.empty())
+					flines.push_back(fline);
 			}
 			i++;
 		}
 		f.close();
 
-		if (i < 5) {
+		if (flines.size() < 2) {
 			LOGERR << "Error: Not enough curve data in curve file" << endl;
 			return MOORDYN_INVALID_INPUT;
 		}
@@ -744,7 +746,7 @@ class MoorDyn final : public io::IO
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
-		LOGMSG << (i-3) << " lines of curve successfully loaded" << std::endl;
+		LOGMSG << flines.size() << " lines of curve successfully loaded" << std::endl;
 		return MOORDYN_SUCCESS;
 	}
 
-- 
2.43.0


From 5a8b6eebcbf8c7cf26df7191622329ff273dd5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:17 +0000
Subject: [PATCH 15/17] fix: non-linear damping of a segment at rest or being
 compressed

---
 source/Line.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 4477510..daf4c99 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -100,6 +100,10 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 	real Xi = ld_stretched / l_unstretched; // stretching/compressing rate
 	real Yi = 0.0;
 
+	// no damping on a segment that is neither stretching nor compressing
+	if (Xi == 0.0)
+		return 0.0;
+
 	// find stress based on strain rate
 	if (dampXs[0] < 0) {
 		// first check if lookup table includes compressing
@@ -114,6 +118,7 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 		}
 		Yi = interp(dampXs, dampYs, Xi);
 		Yi *= Xsign;
+		Xi *= Xsign;
 	}
 
 	// calculate equivalent damping coefficient (since that's what MoorDyn works
-- 
2.43.0


From 14c4833afc8512c784913a74826990a21fab5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:42 +0000
Subject: [PATCH 16/17] fix: submerged fraction of a rod crossing the waterline
 with end A up

---
 source/Rod.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..22019a7 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -959,10 +959,11 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			// the waterline is at a distance -h0 from end A, which is dry
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
-- 
2.43.0


From 04c9d74420eaa604311f0b25f449b9c288b90a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 17/17] fix: read dynamic and 4D current profiles with a single
 time without indexing before the first sample

---
 source/Waves/WaveGrid.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..13b60a3 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -717,10 +717,12 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			// a single sample has no lower neighbour
+			const unsigned int iti0 = iti > 0 ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][iti0], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][iti0], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][iti0], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -865,14 +867,16 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					// a single sample has no lower neighbour
+					const unsigned int iti0 = iti > 0 ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][iti0],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][iti0],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][iti0],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0

