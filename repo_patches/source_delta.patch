From b4e1dd3d7a5a30c533dd066a0fa01e44f4aff518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 01/20] fix: couple each elastic joint with its own link
 coordinate

---
 src/thunder/src/dynamics.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..01cec84 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -311,17 +311,21 @@ namespace thunder_ns{
 			// casadi::SX D(numElasticJoints,numElasticJoints);
 			// casadi::SX Dm(numElasticJoints,numElasticJoints);
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
+			// joint index of each elastic joint
+			std::vector<int> elasticJoints;
+			for (int j=0; j<nj; j++) if (isElasticJoint[j]) elasticJoints.push_back(j);
 			for (int i=0; i<numElasticJoints; i++){
+				int j = elasticJoints[i];
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(j), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(j), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(j), 2)) * pow(dx(i)-dq(j), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From 0435bdc2229fb76b6b29b17523b7fafe387c0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 02/20] fix: sign of the (0,2) element of the yaw-pitch-roll
 rotation matrices

---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..09c3c8a 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..458e120 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -800,7 +800,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From dabcd02692063a6468137eb481b73d54c0550f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 03/20] fix: keep selectivity masks of surplus links and
 surplus entries out of the mask vectors

---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..eff5261 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -118,6 +118,7 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index==nj) break; // ignore links beyond the declared joints
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
@@ -125,6 +126,7 @@ namespace thunder_ns{
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
+				link_symb.resize(STD_PAR_LINK);
 				std::copy(link_symb.begin(), link_symb.end(), par_DYN_symb.begin() + link_index * STD_PAR_LINK);
 				link_index++;
 			}
@@ -135,6 +137,7 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index==nj) break;
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
 					if (friction["symb"]) {
@@ -142,6 +145,7 @@ namespace thunder_ns{
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
+					fric_symb.resize(this->Dl_order);
 					std::copy(fric_symb.begin(), fric_symb.end(), par_Dl_symb.begin() + link_index * this->Dl_order);
 					link_index++;
 				}
-- 
2.43.0


From 19a20f1408d776df43879dd3a8a1e795ac046dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 04/20] fix: accept links without a friction section when a
 friction order is set

---
 src/thunder/src/robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index eff5261..93ae5b2 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -140,7 +140,7 @@ namespace thunder_ns{
 					if (link_index==nj) break;
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
-					if (friction["symb"]) {
+					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
-- 
2.43.0


From b4a3b9e33d80c633547a44e923809e7a2d7773b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 05/20] fix: read link friction from the friction section in
 genInertial_files and bound the number of links

---
 src/thunder/src/genYaml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..810a47f 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -52,6 +52,7 @@ namespace thunder_ns{
 			int link_index = 0;
 			for (const auto& node : dynamics) {
 
+				if (link_index==num_joints) break; // ignore links beyond the declared joints
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
 				std::string linkName = node.first.as<std::string>();
@@ -73,10 +74,9 @@ namespace thunder_ns{
 				properties.parI[5] = inertial["Izz"].as<double>();
 				// link friction
 				if (Dl_order){
-					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
-					properties.Dl = Dl;
+					if (friction) properties.Dl = friction["Dl"].as<std::vector<double>>();
+					properties.Dl.resize(Dl_order);
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
 					// 	properties.Dl[j] = Dl[j];
-- 
2.43.0


From a2d212cb8362182eaa6f99626bea7bfa1aaf234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 06/20] fix: keep par_DYN and par_REG consistent when one is
 set, also with partially symbolic parameters

---
 src/thunder/library/robot.h |  1 +
 src/thunder/src/robot.cpp   | 34 +++++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index b966fa3..8373fe9 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -31,6 +31,7 @@ namespace thunder_ns{
 			// std::vector<fun_obj> functions;
 			int parse_config();
 			void initVarsFuns();
+			casadi::SX select_symb(std::string par, const casadi::SX& full);
 			/* Create and initialize casadi function */
 			// void init_casadi_functions();
 			/* Update result of casadi functions */
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 93ae5b2..7b8d3f6 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -511,18 +511,18 @@ namespace thunder_ns{
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
 		casadi::SX& par_DYN = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN.size1(); // only the symbolic elements once the model is computed
 		if (value.size() == numPar){
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
 			}
+			// change par_REG
+			update_inertial_REG();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		// change par_REG
-		update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
@@ -532,12 +532,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
 			}
+			// change par_DYN
+			update_inertial_DYN();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
 	}
 
 
@@ -552,7 +553,7 @@ namespace thunder_ns{
 
 	Eigen::VectorXd Robot::get_par_DYN(){
 		const casadi::SX& par_DYN_casadi = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN_casadi.size1(); // only the symbolic elements once the model is computed
 		Eigen::VectorXd param_DYN(numPar);
 		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
@@ -919,6 +920,21 @@ namespace thunder_ns{
 		return 1;
 	}
 
+	casadi::SX Robot::select_symb(std::string par, const casadi::SX& full){
+		// once the model is computed, only the symbolic elements of a parameter are kept
+		if (model[par].size1() == full.size1()) return full;
+		const std::vector<int>& symb_flag = symb[par];
+		casadi::SX selected(model[par].size1(), 1);
+		int sz = 0;
+		for (int i=0; i<symb_flag.size(); i++){
+			if (symb_flag[i]){
+				selected(sz) = full(i);
+				sz++;
+			}
+		}
+		return selected;
+	}
+
 	int Robot::update_inertial_DYN(){
 		// not efficient, should be made in casadi
 		Eigen::VectorXd param_REG = get_par_REG();
@@ -939,13 +955,16 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		casadi::SX par_DYN(STD_PAR_LINK*numJoints,1);
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) par_DYN(i) = param_DYN(i);
+		args["par_DYN"] = select_symb("par_DYN", par_DYN);
 		return 1;
 	}
 
 	int Robot::update_inertial_REG(){
 		// not efficient, should be made in casadi
 		Eigen::VectorXd param_DYN = get_par_DYN();
+		if (param_DYN.size() != STD_PAR_LINK*numJoints) return 0; // the fixed elements are no more available
 		// cout<<"param_DYN:"<<endl<<param_DYN<<endl<<endl;
 		Eigen::VectorXd param_REG(STD_PAR_LINK*numJoints);
 		for (int i=0; i<numJoints; i++){
@@ -972,7 +991,8 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		casadi::SX& par_REG = args["par_REG"];
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) par_REG(i) = param_REG(i);
 		return 1;
 	}
 
-- 
2.43.0


From 44bcd24e8b334b171f39aaa2564af7688b31ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 07/20] fix: reload a configuration into a computed robot with
 partially symbolic parameters

---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 7b8d3f6..3fa0094 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -724,6 +724,10 @@ namespace thunder_ns{
 		if (Dm_order>0) args["par_Dm"] = param_Dm;
 		if (ELASTIC) args["par_Mm"] = param_Mm;
 		if (update_REG) update_inertial_REG();
+		// if the model is already computed, keep only the symbolic elements
+		for (const std::string par : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}){
+			if (args.count(par)) args[par] = select_symb(par, args[par]);
+		}
 		return 1;
 	}
 
-- 
2.43.0


From 23a26d904f3cdf9c046e8d4b6a7f43d36de0292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 08/20] fix: load_par_REG reads the layout written by
 save_par_REG

---
 src/thunder/src/robot.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3fa0094..94d4885 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -735,36 +735,39 @@ namespace thunder_ns{
 		// Eigen::VectorXd param_REG;
 		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
 		casadi::SX param_Dl(Dl_order*numJoints,1);
+		bool Dl_found = false;
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : dynamics) {
+				YAML::Node inertial = node.second["inertial"];
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
+						Dl_found = true;
 					}
 				}
 
@@ -776,7 +779,7 @@ namespace thunder_ns{
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 		}
 		args["par_REG"] = param_REG;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
+		if (Dl_found) args["par_Dl"] = select_symb("par_Dl", param_Dl); // files without friction leave it unchanged
 		if (update_DYN) update_inertial_DYN();
 		return param_REG;
 	}
-- 
2.43.0


From 97ac6336344dad523b659d59c77e253c57043266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 09/20] fix: generated load_par_REG restores the link friction
 saved by save_par_REG

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 458e120..fc8e3bb 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -349,6 +349,14 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 
 				par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
+				// - link friction - //
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					for (int j=0; j<Dl_order; j++){
+						par_Dl(Dl_order*i + j) = Dl[j];
+					}
+				}
+
 				i++;
 			}
 			if (update_DYN) update_inertial_DYN();
-- 
2.43.0


From c4bb1e19e04e6988538e97fd8bc9962edb727fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 10/20] fix: rejected set_par_DYN and set_par_REG leave the
 generated class unchanged

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index fc8e3bb..f683bf0 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From 4a58d04756f3c4e6007cefb44b5a1864a1825538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 11/20] fix: generated save_par names the kinematic parameters
 as Robot::load_par expects

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index f683bf0..aaefef3 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -679,19 +679,19 @@ int thunder_robot::save_par(std::string par_file){
 
 		// - save DHtable - //
 		std::vector<double> DHtable_vect(par_DHtable.data(), par_DHtable.data() + par_DHtable.rows() * par_DHtable.cols());
-		yamlFile["DHtable"] = DHtable_vect;
+		yamlFile["par_DHtable"] = DHtable_vect;
 
 		// - save world2L0 - //
 		std::vector<double> world2L0_vect(par_world2L0.data(), par_world2L0.data() + par_world2L0.rows() * par_world2L0.cols());
-		yamlFile["world2L0"] = world2L0_vect;
+		yamlFile["par_world2L0"] = world2L0_vect;
 
 		// - save Ln2EE - //
 		std::vector<double> Ln2EE_vect(par_Ln2EE.data(), par_Ln2EE.data() + par_Ln2EE.rows() * par_Ln2EE.cols());
-		yamlFile["Ln2EE"] = Ln2EE_vect;
+		yamlFile["par_Ln2EE"] = Ln2EE_vect;
 
 		// - save gravity - //
 		std::vector<double> gravity_vect(par_gravity.data(), par_gravity.data() + par_gravity.rows() * par_gravity.cols());
-		yamlFile["gravity"] = gravity_vect;
+		yamlFile["par_gravity"] = gravity_vect;
 
 		// - save par_DYN - //
 		std::vector<double> par_DYN_vect(par_DYN.data(), par_DYN.data() + par_DYN.rows() * par_DYN.cols());
-- 
2.43.0


From c3e16b5318ffe64dafa9452bfc3b6598dd96408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 12/20] fix: load_par accepts complete parameter files written
 by the generated class

---
 src/thunder/library/robot.h |  1 +
 src/thunder/src/robot.cpp   | 28 ++++++++++++++++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index 8373fe9..127d8a0 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -32,6 +32,7 @@ namespace thunder_ns{
 			int parse_config();
 			void initVarsFuns();
 			casadi::SX select_symb(std::string par, const casadi::SX& full);
+			void load_par_values(std::string par_name, std::vector<double> values);
 			/* Create and initialize casadi function */
 			// void init_casadi_functions();
 			/* Update result of casadi functions */
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 94d4885..581fd48 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -784,25 +784,33 @@ namespace thunder_ns{
 		return param_REG;
 	}
 
+	void Robot::load_par_values(std::string par_name, std::vector<double> values){
+		if (!args.count(par_name)) return; // not a parameter of this robot
+		casadi::SX& par = args[par_name];
+		if (values.size() > par.size1() && symb.count(par_name) && values.size() == symb[par_name].size()){
+			// complete parameter, but only the symbolic elements are kept once the model is computed
+			std::vector<double> selected;
+			for (int i=0; i<values.size(); i++){
+				if (symb[par_name][i]) selected.push_back(values[i]);
+			}
+			values = selected;
+		}
+		for (int i=0; i<values.size(); i++){
+			par(i) = values[i];
+		}
+	}
+
 	int Robot::load_par(std::string par_file, std::vector<std::string> par_list){
 		try {
 			// load yaml
 			YAML::Node yamlFile = YAML::LoadFile(par_file);
 			if (par_list.size() == 0){
 				for (const auto& node : yamlFile){
-					std::vector<double> par_vect = node.second.as<std::vector<double>>();
-					casadi::SX& par = args[node.first.as<std::string>()];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+					load_par_values(node.first.as<std::string>(), node.second.as<std::vector<double>>());
 				}
 			} else {
 				for (std::string par_str : par_list){
-					std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
-					casadi::SX& par = args[par_str];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+					load_par_values(par_str, yamlFile[par_str].as<std::vector<double>>());
 				}
 			}
 		} catch (const YAML::Exception& e) {
-- 
2.43.0


From 698bdb58f1124f4d4ae0cdf20e4dcf5aa54c9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 13/20] fix: set_arg rejects a value of the wrong dimension for
 an existing argument

---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 581fd48..570faef 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -396,6 +396,10 @@ namespace thunder_ns{
 
 	int Robot::set_arg(std::string name, Eigen::VectorXd value){
 		int sz = value.size();
+		if (args.count(name) && args[name].size1() != sz){
+			std::cout<<"in setArguments: invalid dimensions of arguments\n";
+			return 0;
+		}
 		casadi::SX& arg = args[name];
 		arg = casadi::SX::zeros(sz);
 		for (int i=0; i<sz; i++){
-- 
2.43.0


From 2d60d221ca986e1b13b2707708b80970245ec21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 14/20] fix: add_function takes whole arguments that have no
 mask or are already reduced

---
 src/thunder/src/robot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 570faef..1edf16b 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1035,12 +1035,14 @@ namespace thunder_ns{
 				// int sz_original = args[arg].size();
 				// std::cout << "fun: " << f_name << std::endl;
 				// std::cout << "arg: " << arg << std::endl;
-				std::vector<int>& symb_flag = symb[arg];
+				std::vector<int> symb_flag = symb.count(arg) ? symb[arg] : std::vector<int>();
 				std::vector<casadi::SX> par_symb;
 				casadi::SX& par_model = model[arg];
 				// cout << "model[arg]: " << par_model << endl;
 				// cout << "symb_flag: " << symb_flag << endl;
 				int sz_original = par_model.size().first;
+				// arguments without a mask, or already reduced to their symbolic elements, are taken as they are
+				if (symb_flag.size() != sz_original) symb_flag.assign(sz_original, 1);
 				// casadi::SX par_model_new = casadi::SX::zeros(sz_original);
 				// casadi::SX new_par(sz_original,1);
 				int sz = 0;
-- 
2.43.0


From 1d7f885903583337635e633bc090ff0a61d03dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 15/20] fix: generated getters pass only the symbolic elements
 of partially symbolic parameters

---
 src/thunder/src/utils.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 09c3c8a..bbc1e60 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -221,6 +221,24 @@ namespace thunder_ns{
 				if (fun_args.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
 				} else {
+					// these members hold every element, but the functions take only the symbolic ones
+					for (auto& arg : fun_args){
+						if (arg == "par_DYN" || arg == "par_Dl" || arg == "par_K" || arg == "par_D" || arg == "par_Dm" || arg == "par_Mm"){
+							string elements = "";
+							int sz_symb = 0, sz_par = robot.symb[arg].size();
+							for (int j=0; j<sz_par; j++){
+								if (robot.symb[arg][j]){
+									elements += (sz_symb ? ", " : "") + arg + "(" + to_string(j) + ")";
+									sz_symb++;
+								}
+							}
+							if (sz_symb > 0 && sz_symb < sz_par){
+								functions_string.append("\tEigen::VectorXd " + arg + "_symb(" + to_string(sz_symb) + ");\n");
+								functions_string.append("\t" + arg + "_symb << " + elements + ";\n");
+								arg += "_symb";
+							}
+						}
+					}
 					functions_string.append("\tconst double* input_[] = {" + fun_args[0]+".data()");
 					for (int j=1; j<fun_args.size(); j++){
 						functions_string.append(", " + fun_args[j]+".data()");
-- 
2.43.0


From 1d439831e2db4f98b5807e3f5b4e0bc98f638517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 16/20] fix: the generator aborted half-way when HOME is not
 set

---
 src/thunder/thunder_main.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..5512116 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -153,9 +153,6 @@ int main(int argc, char* argv[]){
 	std::string thunder_robot_h_path;
 	std::string python_cmake_file;
 
-	// Get home/.local/share directory
-	std::string home = std::getenv("HOME");
-	// std::string template_path = home + "/.local/share/thunder_dynamics/thunder_robot_template/";
 	std::string template_path = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
 
 	if (std::filesystem::is_directory(template_path)){
-- 
2.43.0


From 0c9ebe9934f7fe1c60fd79087a9bac8656f5645f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:49:02 +0000
Subject: [PATCH 17/20] fix: table rows beyond the declared joints made the
 model object fail and the generated class write past its table

---
 src/thunder/src/robot.cpp                            | 2 ++
 src/thunder/thunder_robot_template/thunder_robot.cpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 1edf16b..d890a14 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -87,6 +87,7 @@ namespace thunder_ns{
 			// Denavit-Hartenberg
 			YAML::Node kinematics = config_file["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
+			if ((int)dh_vect.size() > 4*nj) dh_vect.resize(4*nj); // ignore rows beyond the declared joints
 			int dh_size = dh_vect.size();
 			casadi::SX DHtable_numerical(dh_size, 1);
 			for (int i = 0; i < dh_size; i++) {
@@ -194,6 +195,7 @@ namespace thunder_ns{
 
 			if (kinematics["symb"]) this->symb["par_DHtable"] = kinematics["symb"].as<std::vector<int>>();
 			else this->symb["par_DHtable"].assign(dh_size, 0);
+			this->symb["par_DHtable"].resize(dh_size);
 
 			if (frame_base["symb"]) this->symb["par_world2L0"] = frame_base["symb"].as<std::vector<int>>();
 			else this->symb["par_world2L0"].assign(6, 0);
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index aaefef3..aed0a70 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -383,7 +383,8 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			} else {
 				// no parameters here
 			}
-			int sz = dh_vect.size();
+			int sz = std::min<int>(dh_vect.size(), n_joints*4); // ignore rows beyond the declared joints
+			DHtable_symb.resize(n_joints*4);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
 			// 		par_DHtable(i) = dh_vect[i];
-- 
2.43.0


From 20f637c07f65ff666491b291a87e25d2d728497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:14 +0000
Subject: [PATCH 18/20] fix: a function description with a line break, quote or
 backslash made the generated class or bindings invalid

---
 src/thunder/src/utils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index bbc1e60..e20f4ed 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -118,6 +118,8 @@ namespace thunder_ns{
 		
 		// int STD_PAR_LINK = robot.STD_PAR_LINK;
 		std::vector<fun_obj> functions = robot.get_functions();
+		// descriptions are written into one-line comments
+		for (auto& fun : functions) replace_all(fun.description, "\n", " ");
 
 		// --- file .h --- //
 		ifstream file_h(file_path_h); // open in reading mode
@@ -252,8 +254,12 @@ namespace thunder_ns{
 				functions_string.append("}\n\n");
 
 				// pybindings
-				if(gen_python)
-					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ functions[i].description +"\")\n");
+				if(gen_python){
+					string descr = functions[i].description; // becomes a string literal
+					replace_all(descr, "\\", "\\\\");
+					replace_all(descr, "\"", "\\\"");
+					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ descr +"\")\n");
+				}
 			}
 			replace_all(file_content_cpp, "/*#-FUNCTIONS_CPP-#*/", functions_string);
 
-- 
2.43.0


From a1bfd278f7c662a5fb9a137c681da2da92ab832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:33 +0000
Subject: [PATCH 19/20] fix: selection masks of the frames and the gravity
 shorter or longer than their section were read out of bounds

---
 src/thunder/src/robot.cpp                            | 3 +++
 src/thunder/thunder_robot_template/thunder_robot.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index d890a14..dea2f29 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -199,12 +199,15 @@ namespace thunder_ns{
 
 			if (frame_base["symb"]) this->symb["par_world2L0"] = frame_base["symb"].as<std::vector<int>>();
 			else this->symb["par_world2L0"].assign(6, 0);
+			this->symb["par_world2L0"].resize(6);
 			
 			if (frame_ee["symb"]) this->symb["par_Ln2EE"] = frame_ee["symb"].as<std::vector<int>>();
 			else this->symb["par_Ln2EE"].assign(6, 0);
+			this->symb["par_Ln2EE"].resize(6);
 
 			if (config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
 			else this->symb["par_gravity"].assign(3, 0);
+			this->symb["par_gravity"].resize(3);
 
 
 			// ---- Finalize Robot State and CasADi Model ---- //
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index aed0a70..deb10a0 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -409,6 +409,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			} else {
 				// no parameters here
 			}
+			world2L0_symb.resize(6);
 			// int sz = 0;
 			// for (int v : world2L0_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
@@ -440,6 +441,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			} else {
 				// no parameters here
 			}
+			Ln2EE_symb.resize(6);
 			// int sz = 0;
 			// for (int v : Ln2EE_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
@@ -506,6 +508,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			} else {
 				// no parameters here
 			}
+			gravity_symb.resize(3);
 			// int sz = 0;
 			// for (int v : gravity_symb) if (v) sz++;
 			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
-- 
2.43.0


From 36ac7b12e66314f72dac3f9e7a03bf548466b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:29 +0000
Subject: [PATCH 20/20] fix: set_par_DHtable aborted on a matrix of another
 shape instead of rejecting it

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index deb10a0..120e672 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -248,7 +248,7 @@ void thunder_robot::set_par_Dl(const Eigen::VectorXd& par_){
 }
 
 void thunder_robot::set_par_DHtable(const Eigen::MatrixXd& par_){
-	if(par_.size() == par_DHtable.size()){
+	if(par_.cols() == 1 && par_.rows() == par_DHtable.size()){
 		par_DHtable = par_;
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
-- 
2.43.0

