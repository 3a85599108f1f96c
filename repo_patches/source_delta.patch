From 9975d812613f396c2e7df19b5a736eda7787fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 01/68] fix: sign of the rotation error in the covariance of an
 inverted ErrorPose

(q e)^-1 = q^-1 (q e^-1 q^-1), so the rotation error of the inverse is -R(q) e;
the jacobian had +R(q), which flips the sign of the position/rotation
cross-covariance.
---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..3526ce4 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) = - ( 1. + t5445 + t5446 );
+	j( 3, 4 ) = 2. * t5362 * t5371 - 2. * t5364 * t5369;
+	j( 3, 5 ) = - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) = - 2. * t5373;
+	j( 4, 4 ) = - ( 1. + t5446 + t5453 );
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) = - 2. * t5410;
+	j( 5, 5 ) = - ( 1. + t5445 + t5453 );
 }
 
 
-- 
2.43.0


From 72017ae20dc140fbc4cb2184de646f9d2b19438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 02/68] fix: invertMultiply propagated the covariance of a * b
 instead of a^-1 * b

---
 src/utMath/ErrorPose.cpp | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 3526ce4..c120e90 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -590,20 +590,7 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 
 ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 {
-	// covariance transform
-	Matrix< double, 6, 6 > jacobian1;
-	Matrix< double, 6, 6 > jacobian2;
-	Matrix< double, 6, 6 > tmp;
-	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
-	
-	// here we could save some time by regarding the zero and identity blocks of the jacobians...
-	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian1 ) );
-	noalias( tmp ) = ublas::prod( jacobian2, b.covariance() );
-	noalias( newCovariance ) += ublas::prod( tmp, ublas::trans( jacobian2 ) );
-
-	return ErrorPose( ~static_cast< const Pose& >( a ) * static_cast< const Pose& >( b ), newCovariance );
+	return ( ~a ) * b;
 }
 
 
-- 
2.43.0


From 753f9612f0841022e65fbb2058c5d765896b8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 03/68] fix: ErrorPose * ErrorVector ignored the covariance of
 the vector

---
 src/utMath/ErrorPose.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index c120e90..3027a51 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -569,8 +569,6 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::Vector< doub
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b, newCovariance );
 }
 
-//TODO
-
 ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector< double, 3 >& b )
 {
 	
@@ -584,6 +582,11 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// contribution of the vector's own covariance
+	const Matrix< double, 3, 3 > rot( a.rotation() );
+	const Matrix< double, 3, 3 > tmp2( ublas::prod( rot, b.covariance ) );
+	noalias( newCovariance ) += ublas::prod( tmp2, ublas::trans( rot ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From 933a439bc612bb67a7cc6109cc77c75390faa504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:37 +0000
Subject: [PATCH 04/68] fix: additive<->multiplicative error conversion used
 the conjugated rotation

The documented model q * (e_r, 1) gives dq = q * e_r, i.e. the matrix of left
multiplication by q; the conversion used left multiplication by ~q in both
directions. Average< ErrorPose > compensated by passing the inverse mean and
now passes the mean (its result is unchanged).
---
 src/utMath/ErrorPose.cpp        | 12 ++++++------
 src/utMath/Stochastic/Average.h | 13 +++----------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 3027a51..4342458 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -474,12 +474,12 @@ struct ErrorConversion
 	{
 		result = input;
 		jacobian( 0, 0 ) = jacobian( 1, 1 ) = jacobian( 2, 2 ) = jacobian( 3, 3 ) = r.w();
-		jacobian( 0, 1 ) = jacobian( 3, 2 ) = r.z();
-		jacobian( 0, 2 ) = jacobian( 1, 3 ) = -r.y();
-		jacobian( 0, 3 ) = jacobian( 2, 1 ) = -r.x();
-		jacobian( 1, 0 ) = jacobian( 2, 3 ) = -r.z();
-		jacobian( 1, 2 ) = jacobian( 3, 0 ) = r.x();
-		jacobian( 2, 0 ) = jacobian( 3, 1 ) = r.y();
+		jacobian( 0, 1 ) = jacobian( 3, 2 ) = -r.z();
+		jacobian( 0, 2 ) = jacobian( 1, 3 ) = r.y();
+		jacobian( 0, 3 ) = jacobian( 2, 1 ) = r.x();
+		jacobian( 1, 0 ) = jacobian( 2, 3 ) = r.z();
+		jacobian( 1, 2 ) = jacobian( 3, 0 ) = -r.x();
+		jacobian( 2, 0 ) = jacobian( 3, 1 ) = -r.y();
 	}
 
 };
diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..a2aab28 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -273,7 +273,7 @@ public:
 	{
 	
 		/*
-		 * Use inverted mean value to transform the additive 7x7
+		 * Use the mean value to transform the additive 7x7
 		 * covariance to the 6x6 multiplicative format The conversion is
 		 * conducted according to the following formulas:
 		 * 
@@ -303,16 +303,9 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
-		
-		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
-		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
-		// Now, we recreate the error pose with the computed mean value.	
-		return value_type( meanPose, invEp.covariance() );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		return value_type( meanPose, Math::ErrorPose::fromAdditiveErrorVector( ev ).covariance() );
 	};
 	
 };
-- 
2.43.0


From 7dbaeb43d4f3e4368cb0027fbb08204c95d4bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 05/68] fix: RotationVelocityIntegration integrates rotations
 beyond the small-angle limit and scales its derivative by dt^2

---
 .../Optimization/Function/RotationVelocityIntegration.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 99996854a41582fa6ba3e7c730b3920732130346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 06/68] fix: RotHecCombine derivative with respect to the
 right-hand rotation

---
 src/utAlgorithm/Function/RotHecFunction.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..ab77fcb 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,22 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From 383b9e66edd6943dc1263741b03a496227567a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 07/68] fix: derivative of the z coordinate in the 3D-3D pose
 refinement

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From 95cb0c1a99191248138076c992d4516faa370832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:59 +0000
Subject: [PATCH 08/68] fix: QuaternionTimeUpdate derivative w.r.t. angular
 velocity used dt^2 instead of dt

---
 src/utTracking/Function/QuaternionTimeUpdate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..ff85020 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,8 +75,7 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
-			
+
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
 			jacobian( 0, 4 + i * 3 + 2 ) =  t * q.y() / 2;
@@ -92,6 +91,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From cf590697c2ba8ba61e4138eb04fe1c1732d6159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:34 +0000
Subject: [PATCH 09/68] fix: RotationOnlyKF::predict computed the elapsed time
 unsigned, wrong for times before the last measurement

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From 2eaa3880ca5e1d8c0b54c00bb04f9e288b2527b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:45 +0000
Subject: [PATCH 10/68] fix: compare dynamically sized vectors and matrices
 element by element

operator== looped up to the compile-time size, which is 0 for dynamically
sized vectors and matrices, so any two of them compared equal.
---
 src/utMath/Matrix.h | 7 +++++--
 src/utMath/Vector.h | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Matrix.h b/src/utMath/Matrix.h
index 7a5e02d..4332a57 100644
--- a/src/utMath/Matrix.h
+++ b/src/utMath/Matrix.h
@@ -409,8 +409,11 @@ void leftHandToRightHandMatrix(Ma& matrix)
 template<  typename T, std::size_t M, std::size_t N >
 bool operator==( const Matrix< T, M, N >& a, const Matrix< T, M, N >& b )
 {
-	for ( std::size_t r = 0; r < M; r++ )
-		for ( std::size_t c = 0; c < N; c++ )
+	// the size of a dynamic matrix is only known at runtime
+	if ( a.size1() != b.size1() || a.size2() != b.size2() )
+		return false;
+	for ( std::size_t r = 0; r < a.size1(); r++ )
+		for ( std::size_t c = 0; c < a.size2(); c++ )
 			if ( a( r, c ) != b( r, c ) )
 				return false;
 	return true;
diff --git a/src/utMath/Vector.h b/src/utMath/Vector.h
index fdbb3be..35f3c95 100644
--- a/src/utMath/Vector.h
+++ b/src/utMath/Vector.h
@@ -335,7 +335,10 @@ Vector < T, N > linearInterpolate ( const Vector< T, N >& x, const Vector< T, N
 template< typename T, std::size_t N >
 bool operator==( const Vector< T, N >& a, const Vector< T, N >& b )
 {
-	for ( std::size_t c = 0; c < N; c++ )
+	// the size of a dynamic vector is only known at runtime
+	if ( a.size() != b.size() )
+		return false;
+	for ( std::size_t c = 0; c < a.size(); c++ )
 		if ( a( c ) != b( c ) )
 			return false;
 	return true;
-- 
2.43.0


From 97bce0ad088f5faae5b1895eeb4dab7cbbcd895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:25 +0000
Subject: [PATCH 11/68] fix: use the right element in the 4x4 transformation of
 homogeneous points

The last row of the product took element (3,3) instead of (3,2) for the
third coordinate.
---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From 16fac9af7925b1e1864c1958f8167a70a02fe83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 12/68] fix: use the full xy coefficient for the eccentricity
 of a conic

The formula sqrt( (a-c)^2 + b^2 ) expects the coefficient b of xy, not half
of it, so the eccentricity of every rotated conic was wrong.
---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..7d73f37 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -438,7 +438,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From f6935d77446b1583a9ebcb9643879c7811521057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:41 +0000
Subject: [PATCH 13/68] fix: refuse to compute the center of a parabola

The test for a vanishing divisor was applied to its reciprocal, which is
never zero, so a non-finite center was returned instead of throwing.
---
 src/utMath/Geometry/Conic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 7d73f37..ec6a7a2 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -395,9 +395,9 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		if( b*b - a*c == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From d81b0d4d5d9795d724159597a1e0a31534719371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 14/68] fix: CameraIntrinsics with three radial parameters
 reported only two

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..bea4202 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
-- 
2.43.0


From d410968de2ae4252423d1ee25d161e11384e3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 15/68] fix: fish-eye CameraIntrinsics left two radial
 parameters uninitialised

---
 src/utMath/CameraIntrinsics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index bea4202..5623bea 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -181,6 +181,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From c60d4be2234478decd38f0ef3d5dea1d22fcd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 16/68] fix: diagonal opening angle of a camera divided by the
 norm of both focal lengths

---
 src/utMath/CameraIntrinsics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5623bea..0a1c6f4 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -258,9 +258,9 @@ public:
 		// angle ~= 2*arctan( d/(2*f)) -> rad -> degree: * (180/pi) 
 		static const T pi = std::acos( static_cast< T >( -1 ) ); //pi ~= acos(-1)
 		static const T factor = (360/pi);
-		const std::size_t squaredDiag  = ( dimension( 0 )*dimension( 0 )+dimension( 1 )*dimension( 1 ) );
-		const T squaredFocal = ( matrix( 0, 0 )*matrix( 0, 0 )+matrix( 1, 1 )*matrix( 1, 1 ) );
-		return factor * std::atan( std::sqrt( squaredDiag / (4*squaredFocal) ) );
+		const T x = dimension( 0 ) / ( 2* matrix( 0, 0 ) );
+		const T y = dimension( 1 ) / ( 2* matrix( 1, 1 ) );
+		return factor * std::atan( std::sqrt( x*x + y*y ) );
 	}
 	
 	/// corrects the Ubitrack intrinsics matrix to the corresponding left-handed (e.g. \c OpenCV ) camera matrix
-- 
2.43.0


From aabaff43fa1db1e364cc650c25a53c25bb02936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:57 +0000
Subject: [PATCH 17/68] fix: decomposeProjection returned a translation scaled
 by the scale of the projection matrix

---
 src/utAlgorithm/Projection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..c5b7730 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -202,7 +202,8 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	// compute translation vector: t = K^-1 p^4
 	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
-	t = ublas::column( ttmp, 0 );
+	// (P still has the scale that was removed from k)
+	t = f * ublas::column( ttmp, 0 );
 }
 
 
-- 
2.43.0


From a6bbc091e277b9b425b4edbac4702bf8badcb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:23 +0000
Subject: [PATCH 18/68] fix: getFundamentalMatrix accepted fewer than eight
 correspondences for a step size above one

---
 src/utAlgorithm/FundamentalMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/FundamentalMatrix.cpp b/src/utAlgorithm/FundamentalMatrix.cpp
index ffc7476..285bf7c 100644
--- a/src/utAlgorithm/FundamentalMatrix.cpp
+++ b/src/utAlgorithm/FundamentalMatrix.cpp
@@ -98,7 +98,7 @@ Math::Matrix< T, 3, 3 > getFundamentalMatrixImpl( const std::vector< Math::Vecto
 		UBITRACK_THROW ( "Input sizes do not match" );	
 	}
 	
-	if( fromPoints.size() < 8 )
+	if( fromPoints.size() / stepSize < 8 )
 	{
 		LOG4CPP_ERROR ( logger, "Input sizes of the vectors to small ");
 		UBITRACK_THROW ( "Input sizes to small. Use at least 8 values" );	
-- 
2.43.0


From f8185682adb02e5ae7400ecb2f25d9606590ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:57 +0000
Subject: [PATCH 19/68] fix: computePose ignored the z coordinate of a plane
 parallel to the xy plane

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..542a516 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -421,7 +421,9 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// (the homography describes the plane z = last_dim, not z = 0)
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK )
+				* Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From a1f003cebdb1eba2c621fdc3da88ff15d47215d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:49 +0000
Subject: [PATCH 20/68] fix: initial multi-camera pose used the camera pose
 instead of its inverse

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From 3f620ab34b3933ff671d36e25c1ca8627772fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:17 +0000
Subject: [PATCH 21/68] fix: loading camera intrinsics kept stale radial
 parameters and overran them on corrupt input

---
 src/utMath/CameraIntrinsics.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 0a1c6f4..9075411 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -43,6 +43,7 @@
 //Ubitrack
 #include <utMath/Vector.h>
 #include <utMath/Matrix.h>
+#include <utUtil/Exception.h>
 
 namespace Ubitrack { namespace Math {
 
@@ -231,6 +232,9 @@ public:
 			case 6 : // wide-angle parameters
 				calib_type = OPENCV_6_2;
 				break;
+			default : // no known calibration
+				calib_type = UNKNOWN;
+				break;
 		}
 	}
 	
@@ -287,6 +291,12 @@ protected:
 		ar & dimension( 0 );
 		ar & dimension( 1 );		
 		ar & radial_size;
+		if( radial_size > radial_params.size() )
+			UBITRACK_THROW( "Too many radial distortion parameters" );
+		
+		// parameters that are not stored are not used
+		if( Archive::is_loading::value )
+			radial_params = radial_type::zeros();
 		
 		for( std::size_t i = 0; i < radial_size; ++i )
 			ar & radial_params[ i ];
-- 
2.43.0


From 1b70ba0a79ec84cb69478a956a892edffddbe573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:38 +0000
Subject: [PATCH 22/68] fix: serializing a measurement without payload
 dereferenced a null pointer

---
 src/utMeasurement/Measurement.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utMeasurement/Measurement.h b/src/utMeasurement/Measurement.h
index 4a0e7fa..fa30af1 100644
--- a/src/utMeasurement/Measurement.h
+++ b/src/utMeasurement/Measurement.h
@@ -35,6 +35,8 @@
 
 #include "Timestamp.h"
 
+#include <utUtil/Exception.h>
+
 #include <utMath/Vector.h>
 #include <utMath/Quaternion.h>
 #include <utMath/Matrix.h>
@@ -247,6 +249,12 @@ class Measurement
 		template< class Archive > 
 		void serialize( Archive& ar, const unsigned int version )
 		{
+			if ( this->get() == 0 )
+			{
+				if ( !Archive::is_loading::value )
+					UBITRACK_THROW( "Cannot serialize a measurement without payload" );
+				this->reset( new Type() );
+			}
 			ar & m_timestamp;
 			ar & ( *(this->get()) );
 		}
-- 
2.43.0


From d30596d3a2be3500af57f2911605dde60e87fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:38 +0000
Subject: [PATCH 23/68] fix: msgpack read non-square matrices with the wrong
 row stride and boxed only one vector element

---
 src/utSerialization/MsgpackSerializer.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..2f819e9 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,6 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +401,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 8c1eb431a4b0d5f0273a169ee46bc0c96b554ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 24/68] fix: msgpack reader ignored an incomplete stream and
 overran dynamically sized vectors

---
 src/utSerialization/MsgpackSerializer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 2f819e9..b089171 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -41,6 +41,8 @@
 
 #include "utMeasurement/Measurement.h"
 
+#include "utUtil/Exception.h"
+
 #include <boost/array.hpp>
 #include <boost/call_traits.hpp>
 #include <boost/utility/enable_if.hpp>
@@ -75,7 +77,7 @@ struct MsgpackSerializationFormat {
           msgpack::object obj = oh.get();
           obj.convert<T>(t);
       } else {
-          // throw ??
+          UBITRACK_THROW( "No complete object in the msgpack stream" );
       }
   }
 
@@ -270,6 +272,8 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       std::size_t num_elements = o.via.array.size;
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
+      } else {
+          v.resize(num_elements);
       }
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
-- 
2.43.0


From 058ca2475192ecad3743cffbbf4a6210c412f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 25/68] fix: msgpack accepted camera intrinsics with more
 radial parameters than they can hold

---
 src/utSerialization/MsgpackSerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index b089171..c76cecc 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -719,6 +719,7 @@ struct as<Ubitrack::Math::CameraIntrinsics<T> > {
       result.dimension = o.via.array.ptr[1].as<Ubitrack::Math::Vector< std::size_t, 2 > >();
       result.matrix = o.via.array.ptr[2].as<Ubitrack::Math::Matrix< T, 3, 3 > >();
       result.radial_size = o.via.array.ptr[3].as<std::size_t>();
+      if (result.radial_size > 6) throw msgpack::type_error();
       result.radial_params = o.via.array.ptr[4].as<Ubitrack::Math::Vector< T, 6 > >();
       result.tangential_params = o.via.array.ptr[5].as<Ubitrack::Math::Vector< T, 2 > >();
       return result;
@@ -738,6 +739,7 @@ struct convert<Ubitrack::Math::CameraIntrinsics<T> > {
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector<std::size_t, 2> >()(o.via.array.ptr[1], v.dimension);
 	  msgpack::adaptor::convert<Ubitrack::Math::Matrix< T, 3, 3 > >()(o.via.array.ptr[2], v.matrix);
 	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], v.radial_size);
+	  if (v.radial_size > 6) throw msgpack::type_error();
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 6 > >()(o.via.array.ptr[4], v.radial_params);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 2 > >()(o.via.array.ptr[5], v.tangential_params);
       return o;
-- 
2.43.0


From b15a86e3b639cbe3610465dc143e67381701c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:52 +0000
Subject: [PATCH 26/68] fix: msgpack conversion of a measurement by value did
 not compile and read the timestamp as payload

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index c76cecc..ad47303 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -134,12 +134,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From a9afb4e492121733c0f34e50d0d1243bfde0464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:54 +0000
Subject: [PATCH 27/68] fix: gaussNewton could not be instantiated

---
 src/utMath/Optimization/GaussNewton.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Optimization/GaussNewton.h b/src/utMath/Optimization/GaussNewton.h
index 47c0720..6adf81a 100644
--- a/src/utMath/Optimization/GaussNewton.h
+++ b/src/utMath/Optimization/GaussNewton.h
@@ -72,14 +72,15 @@ void gaussNewton( P& problem, VT1& params, const VT2& measurement, unsigned nIte
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
 	typedef typename VT1::value_type T;
-	typedef typename Math::Matrix< T, 0, 0 > MatType;
+	typedef typename Math::Matrix< T, 0, 0 >::base_type MatType;
+	typedef typename Math::Vector< T >::base_type VecType;
 
 	// create some matrices and vectors
 	MatType matJacobian( measurement.size(), params.size() );
 	MatType matJacobiSquare( params.size(), params.size() );
-	Math::Vector< T > measurementDiff( measurement.size() );
-	Math::Vector< T > paramDiff( params.size() );
-	Math::Vector< T > estimatedMeasurement( measurement.size() );
+	VecType measurementDiff( measurement.size() );
+	VecType paramDiff( params.size() );
+	VecType estimatedMeasurement( measurement.size() );
 
 	OPT_LOG_DEBUG( "Gauss-Newton entry params: " << params );
 
-- 
2.43.0


From a2f2c23c412d59e7ef7c240338147255f4850446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:24 +0000
Subject: [PATCH 28/68] fix: ransac reported success although the final
 estimation failed

---
 src/utMath/Optimization/Ransac.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index 7c11954..f54dfad 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -231,7 +231,8 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 		for ( ; it < itEnd; ++it )
 			list.push_back( *(*it) );
 
-		typename RansacFunctor::Estimator()( result, list.begin(), list.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list.begin(), list.end() ) )
+			return 0;
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
@@ -385,7 +386,8 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 		}
 			
 
-		typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() ) )
+			return 0;
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
-- 
2.43.0


From 84cb99ebc5716c02d67f9323ba608354e5eba6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:38 +0000
Subject: [PATCH 29/68] fix: ransac read past the index list when there are
 fewer values than a set needs

---
 src/utMath/Optimization/Ransac.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index f54dfad..74f484e 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -138,6 +138,10 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 	const std::size_t nValues = std::distance( iBegin, iEnd );
 	assert( params.nMinInlier <= nValues );
 	
+	// not enough values to draw a single set
+	if( nValues < params.setSize )
+		return 0;
+	
 	OPT_LOG_DEBUG( "RANSAC with " << nValues << " values , " << params.nMinInlier << " inlier required" );
 	
 	// includes every indices once, needed to shuffle for random order
@@ -275,6 +279,10 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 	const std::size_t nValues = std::distance( iBegin1, iEnd1 );
 	assert( params.nMinInlier <= nValues );
 	
+	// not enough values to draw a single set
+	if( nValues < params.setSize )
+		return 0;
+	
 	OPT_LOG_DEBUG( "RANSAC with " << nValues << " values , " << params.nMinInlier << " inlier required" );
 	
 	// includes every indices once, needed to shuffle for random order
-- 
2.43.0


From 2825c7adcdc991e5d20ecff994ab6d501ef22acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 30/68] fix: a closed serial port was still treated as open

---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..323cd2e 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -332,6 +332,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From d17fb3750b7fb7dc398c5432bbf7815353ccb99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 31/68] fix: opening a serial port leaked the descriptor when
 it could not be configured

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 323cd2e..6d5df40 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -314,7 +317,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From 59d8e07c545fe4fc06cfb53cc245fce5175e5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 32/68] fix: serial port settings for bits and parity were
 overwritten

---
 src/utUtil/SerialPort.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 6d5df40..bb612af 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -303,13 +303,14 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
+	// sets 8 bits without parity, so the requested settings have to follow
+	cfmakeraw( &m_termiosCurrent );
+
 	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
-	cfmakeraw( &m_termiosCurrent );
-
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
 
-- 
2.43.0


From abb523ce709cd336eda515db9a8496cac51e7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 33/68] fix: serial port errors while sending and counting
 bytes were not reported

---
 src/utUtil/SerialPort.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index bb612af..37c7583 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -366,6 +366,9 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
 
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error sending bytes" );
+
 	return writtenBytes;
 }
 
@@ -375,7 +378,8 @@ unsigned long SerialPort::bytesOnRead()
 		UBITRACK_THROW( "Port is not open" );
 
 	int onread;
-	ioctl( m_fileDescriptor, FIONREAD, (char*) &onread );
+	if ( ioctl( m_fileDescriptor, FIONREAD, (char*) &onread ) < 0 )
+		UBITRACK_THROW( "Error reading number of bytes" );
 
 	return onread;
 }
-- 
2.43.0


From 1ac1745923943372bc9c78ef5c439fbdf4099e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 34/68] fix: break and flush used an undefined descriptor when
 the serial port is not open

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 37c7583..b6b250e 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -386,11 +386,17 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From 3baa1dac5a9f85781e2b6633aa1a4378523558de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 35/68] fix: sleep did not wait at all when the nanoseconds add
 up to a second or more

---
 src/utUtil/OS.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..767bc2b 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -67,8 +67,14 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
+	// nanosleep only accepts less than a second of nanoseconds
+	t.tv_sec = ms / 1000 + ns / 1000000000;
+	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns % 1000000000;
+	if ( t.tv_nsec >= 1000000000 )
+	{
+		t.tv_sec++;
+		t.tv_nsec -= 1000000000;
+	}
 	nanosleep( &t, NULL );
 }
 
-- 
2.43.0


From e8cbe963130b40e9653c403b6b3554a1a91f7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 36/68] fix: files with a malformed header escaped the error
 handling of readCalibFile for measurements

---
 src/utUtil/CalibFile.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..138dc91 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,9 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +145,9 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0


From 2e3ada615ef4ab5866c701ebc571543019a539f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 37/68] fix: writing a calibration file did not report data
 that could not be written

---
 src/utUtil/CalibFile.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 138dc91..24253eb 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -171,11 +171,20 @@ void writeCalibFile( const std::string& sFile, const T& data )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
-	// create iarchive
-	boost::archive::text_oarchive archive( stream );
+	try {
+		// create oarchive
+		boost::archive::text_oarchive archive( stream );
+		// write data
+		archive << data;
+	}
+	catch (std::exception& ) {
+		UBITRACK_THROW( "Could not write file " + sFile );
+	}
 
-	// read data
-	archive << data;
+	// buffered data is written here
+	stream.close();
+	if ( !stream.good() )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 
 /**
@@ -191,11 +200,20 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 	if (!stream.good())
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
-	// create iarchive
-	boost::archive::binary_oarchive archive(stream);
+	try {
+		// create oarchive
+		boost::archive::binary_oarchive archive(stream);
+		// write data
+		archive << data;
+	}
+	catch (std::exception& ) {
+		UBITRACK_THROW("Could not write file " + sFile);
+	}
 
-	// read data
-	archive << data;
+	// buffered data is written here
+	stream.close();
+	if (!stream.good())
+		UBITRACK_THROW("Could not write file " + sFile);
 }
 } } // namespace Ubitrack::Util
 
-- 
2.43.0


From 81fdca2e003ea5eed1de65f8b6a172c63bc0eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 38/68] fix: errors while closing a calibration file escaped as
 foreign exceptions

---
 src/utUtil/CalibFile.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 24253eb..563f14d 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -172,17 +172,19 @@ void writeCalibFile( const std::string& sFile, const T& data )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
 	try {
-		// create oarchive
-		boost::archive::text_oarchive archive( stream );
-		// write data
-		archive << data;
+		{
+			// create oarchive
+			boost::archive::text_oarchive archive( stream );
+			// write data
+			archive << data;
+		}
+		// buffered data is written here
+		stream.close();
 	}
 	catch (std::exception& ) {
 		UBITRACK_THROW( "Could not write file " + sFile );
 	}
 
-	// buffered data is written here
-	stream.close();
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not write file " + sFile );
 }
@@ -201,17 +203,19 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
 	try {
-		// create oarchive
-		boost::archive::binary_oarchive archive(stream);
-		// write data
-		archive << data;
+		{
+			// create oarchive
+			boost::archive::binary_oarchive archive(stream);
+			// write data
+			archive << data;
+		}
+		// buffered data is written here
+		stream.close();
 	}
 	catch (std::exception& ) {
 		UBITRACK_THROW("Could not write file " + sFile);
 	}
 
-	// buffered data is written here
-	stream.close();
 	if (!stream.good())
 		UBITRACK_THROW("Could not write file " + sFile);
 }
-- 
2.43.0


From 045f0164308d94e9de0bc485765069e1e6d3f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:18 +0000
Subject: [PATCH 39/68] fix: estimating a Gaussian wrote debug output to stdout

---
 src/utMath/Stochastic/Gaussian.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/utMath/Stochastic/Gaussian.h b/src/utMath/Stochastic/Gaussian.h
index bce388e..17293fb 100644
--- a/src/utMath/Stochastic/Gaussian.h
+++ b/src/utMath/Stochastic/Gaussian.h
@@ -117,11 +117,9 @@ bool estimate_gaussian( const InputIterator itBegin, const InputIterator itEnd,
 	
 	{ // calculate mean value
 		for( InputIterator it ( itBegin ); it != itEnd; ++it, ++n )
-		{
-			std::cout << n << "\n";
 			for( std::size_t i( 0 ); i < N; ++i )
 				gaussian.mean[ i ] += (*it)[ i ];
-		}
+
 		if( n < 1 )
 			return false;
 			
@@ -140,8 +138,6 @@ bool estimate_gaussian( const InputIterator itBegin, const InputIterator itEnd,
 			gaussian.covariance[ i ] /= n;
 	}
 	
-	std::cout <<"Finished With Variance" << std::endl;
-	
 	{ //sum up the squared diagonal entries
 		for( std::size_t i( 0 ); i < N; ++i )	
 			gaussian.variance += ( gaussian.covariance[i*N+i] );
-- 
2.43.0


From ef268ebe7ae887dd42e1e56dcf1ed287b8be93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:18 +0000
Subject: [PATCH 40/68] fix: a Gaussian of an empty selection was reported as
 valid with NaN content

---
 src/utMath/Stochastic/Gaussian.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMath/Stochastic/Gaussian.h b/src/utMath/Stochastic/Gaussian.h
index 17293fb..70a4890 100644
--- a/src/utMath/Stochastic/Gaussian.h
+++ b/src/utMath/Stochastic/Gaussian.h
@@ -189,6 +189,9 @@ bool estimate_gaussian_index( const InputIterator1 itBegin, const InputIterator1
 				for( std::size_t i( 0 ); i < N; ++i )
 					gaussian.mean[ i ] += (*it)[ i ];
 			}
+		if( count < 1 )
+			return false;
+
 		for( std::size_t i( 0 ); i < N; ++i )
 			gaussian.mean[ i ] /= count;
 	}
-- 
2.43.0


From 3088e34c6e2e4b36add280389d0c9a9efc705e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:18 +0000
Subject: [PATCH 41/68] fix: backward propagation ignored the variances of all
 but the first measurements

---
 src/utMath/Stochastic/BackwardPropagation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..68e9b15 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -235,7 +235,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From 3e385b0822fd68ab04711dfe5d20c41669e4ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:18 +0000
Subject: [PATCH 42/68] fix: a cluster without values became NaN and attracted
 all values

---
 src/utMath/Stochastic/k_means.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..b652526 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -318,7 +318,13 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		
 		// reset the amount of gathered values for the means, could be done nicer...
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			const std::size_t n_member = std::count ( indices.begin(), indices.end(), k );
+			if( n_member > 0 )
+				means_temp[ k ] /= n_member;
+			else // no values belong to this cluster at the moment, leave it where it is
+				means_temp[ k ] = *( itMeanBegin + k );
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From d25929bb5665535cfeb1d13174e077cd12402e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 43/68] fix: the normalising factor of the Gaussian density had
 half the required exponent

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..e91111e 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From 2f279b661494071998f9bf3640ad15bbc4b933e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 44/68] fix: random poses could not be instantiated

---
 src/utMath/Random/Pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Random/Pose.h b/src/utMath/Random/Pose.h
index 811025d..a80f651 100644
--- a/src/utMath/Random/Pose.h
+++ b/src/utMath/Random/Pose.h
@@ -104,7 +104,7 @@ struct Pose
 		: public std::unary_function< void, Math::Pose >
 	{
 		protected:
-			Random::Quaternion< double > randRotations;
+			typename Random::Quaternion< double >::Uniform randRotations;
 			const Math::Vector< T, 3 > m_min_range;
 			const Math::Vector< T, 3 > m_max_range;
 			
@@ -127,7 +127,7 @@ struct Pose
 				vec( 0 ) = distribute_uniform< T >( m_min_range( 0 ), m_max_range( 0 ) );
 				vec( 1 ) = distribute_uniform< T >( m_min_range( 1 ), m_max_range( 1 ) );
 				vec( 2 ) = distribute_uniform< T >( m_min_range( 2 ), m_max_range( 2 ) );
-				return Math::Pose( this.randRotations(), vec );
+				return Math::Pose( randRotations(), vec );
 			}
 	};
 };
-- 
2.43.0


From 61b41fc5cab8bb045e9d8766d817ecabe11c7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 45/68] fix: the assignment solver never learned where an
 uncovered zero is and looped forever

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From 3391b5c64de465e27df9360ba611bd3d45a2dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 46/68] fix: assignment problems with different numbers of rows
 and columns failed

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From b81f2deb4aa75b0844bcbc908aee88afd08bd59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 47/68] fix: the assignment solver leaked its row and column
 marks

---
 src/utMath/Graph/Munkres.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 28563c2..4563f1e 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -113,8 +113,8 @@ private:
 	int step6();
 	boost::numeric::ublas::matrix< int > mask_matrix;
 	Math::Matrix< T, 0, 0 > m_matrix;
-	bool *row_mask;
-	bool *col_mask;
+	std::vector< bool > row_mask;
+	std::vector< bool > col_mask;
 	std::size_t saverow, savecol;
 	std::size_t m_max;
 };
@@ -416,13 +416,8 @@ void Munkres< T >::solve()
 	int step ( 1 );
 
 	// Z_STAR == 1 == starred, Z_PRIME == 2 == primed
-	row_mask = new bool[m_max];
-	col_mask = new bool[m_max];
-	for ( std::size_t i( 0 ) ; i < m_max ; ++i ) 
-	{
-		row_mask[i] = false;
-		col_mask[i] = false;
-	}
+	row_mask.assign( m_max, false );
+	col_mask.assign( m_max, false );
 
 	while ( notdone ) 
 	{
-- 
2.43.0


From 289e55e1123dbdaca8f51c5de3abcac97756c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:32 +0000
Subject: [PATCH 48/68] fix: hand-eye calibration from too few poses leaked its
 identity result

---
 src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp b/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp
index 7864c28..b5c2c60 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp
@@ -429,9 +429,7 @@ Math::Pose performHandEyeCalibrationImp ( const std::vector<Math::Matrix< T, 4,
 
 	if( n_eyes <= 2 )
 	{
-		Math::Vector< T, 3 >* v = new Math::Vector< T, 3 >( 0, 0, 0 );
-		Math::Quaternion* q = new Math::Quaternion();
-		return Math::Pose( *q, *v);
+		return Math::Pose( Math::Quaternion(), Math::Vector< T, 3 >( 0, 0, 0 ) );
 	}
 	
 	TransformCont< T > tc;
@@ -499,9 +497,7 @@ Math::Pose performHandEyeCalibration ( const std::vector< Math::Pose >& hand,  c
 
 	if( n_eyes <= 2 )
 	{
-		Math::Vector< double, 3 >* v = new Math::Vector< double, 3 >( 0, 0, 0 );
-		Math::Quaternion* q = new Math::Quaternion();
-		return Math::Pose( *q, *v);
+		return Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, 0 ) );
 	}
 
 	TransformCont< double > tc;
-- 
2.43.0


From faef404b306521b7f82fb8b46c71fe99e968f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:04 +0000
Subject: [PATCH 49/68] fix: bundle adjustment returned poses that do not
 project like its optimum

---
 src/utAlgorithm/BundleAdjustment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..22f313b 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -319,8 +319,11 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
+		// the optimization does not keep the quaternion at unit length: an unnormalized one scales the
+		// rotated points, i.e. (q, t) projects like (q/|q|, t/|q|^2)
+		const value_type normSquared = boost::numeric::ublas::inner_prod( boost::numeric::ublas::subrange( paramVector, index, index+4 ), boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
 		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) / normSquared );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From 3fa02cfba784e3c62569ffb8523c542abf9f1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:15 +0000
Subject: [PATCH 50/68] fix: bundle adjustment wrote outside its residual when
 a camera lacks observations

---
 src/utAlgorithm/BundleAdjustment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index 22f313b..f1c681e 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -244,6 +244,11 @@ void simpleBundleAdjustmentImpl (
 	point_count.reserve( n_cams );
 	std::transform( i2DPtsBegin, i2DPtsEnd, std::back_inserter( point_count ), std::mem_fun_ref( &container2d_type::size )  );
 	
+	// every camera has to observe every point, in the order of the points
+	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex )
+		if ( point_count[ cameraIndex ] != n_pts3D )
+			UBITRACK_THROW( "Bundle adjustment requires one observation of each point from every camera" );
+
 	// count all observations
 	const std::size_t observationCountTotal = std::accumulate( point_count.begin(), point_count.end(), 0 );
 	
-- 
2.43.0


From 5a78bbba284f9b49227c615fa48d6099fc50aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:58 +0000
Subject: [PATCH 51/68] fix: the online rotation hand-eye filter compared
 quaternions of opposite sign

---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..35e37e6 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,8 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// a and b are conjugate, so their real parts have to agree in sign
+	Function::RotHecMeasurement mf( a, ( a.w() < 0 ) == ( b.w() < 0 ) ? b : Math::Quaternion( -b.x(), -b.y(), -b.z(), -b.w() ) );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From a3adfc82b7a3e0a7bb4dd4ce3f43db90a21faab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 52/68] fix: the bundle adjustment Jacobian was not the
 derivative of its residual

---
 src/utAlgorithm/BundleAdjustment.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f1c681e..a228ddc 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -118,8 +118,6 @@ public:
 			const VType ty = input( camIndex + 5 );
 			const VType tz = input( camIndex + 6 );
 			
-			const Math::Pose pose( Math::Quaternion( qx, qy, qz, qw ), Math::Vector< VType, 3 >( tx, ty, tz ) );
-
 			for ( std::size_t iter_p( 0 ); iter_p < n_pts3D; ++iter_p, row_index += 2 )
 			{
 				// fetch x, y and z coordinate of 3D point from vector
@@ -128,11 +126,6 @@ public:
 				const VType y = input( pointIndex + 1 );
 				const VType z = input( pointIndex + 2 );
 				
-				Math::Vector< VType, 3 > pts ( x, y, z );
-				pts = pose * pts;
-				result( row_index + 0 ) = pts( 0 ) / pts( 2 );
-				result( row_index + 1 ) = pts( 1 ) / pts( 2 );
-				
 				const std::size_t jrow0 = row_index;
 				const std::size_t jrow1 = jrow0 + 1;
 				
@@ -187,6 +180,9 @@ public:
 				const VType t52 = t49*z;
 				const VType t50 = t46+t48-t52+ty;
 				const VType t51 = t28*t37;
+				// the projection that is differentiated below: also valid for quaternions that are not of unit length
+				result( row_index + 0 ) = t22*t28;
+				result( row_index + 1 ) = t50*t28;
 				J( jrow0, camIndex + 0 ) = t32/(t8+t13+tz-x*(t6-qx*qz*2))-t22*t24*t27;
 				J( jrow0, camIndex + 1 ) = t42+t22*t24*t37;
 				J( jrow0, camIndex + 2 ) = -t27*t28-t22*t24*t32;
-- 
2.43.0


From d1dc06722ec93ef4c5412f6a4c69715508a69a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:14 +0000
Subject: [PATCH 53/68] fix: the matrix of a half turn was converted to another
 rotation

---
 src/utMath/Util/RotationCast.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..a110a86 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -104,9 +104,28 @@ struct RotationCast< Math::Quaternion >
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
+		T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
+		T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		if ( qw < 0.1 )
+		{
+			// close to a half turn these differences vanish, the signs follow from the largest component then
+			if ( qxt >= qyt && qxt >= qzt )
+			{
+				qy = ( matrix( 1, 0 ) + matrix( 0, 1 ) < 0 ) != ( qx < 0 ) ? -qyt : qyt;
+				qz = ( matrix( 0, 2 ) + matrix( 2, 0 ) < 0 ) != ( qx < 0 ) ? -qzt : qzt;
+			}
+			else if ( qyt >= qzt )
+			{
+				qx = ( matrix( 1, 0 ) + matrix( 0, 1 ) < 0 ) != ( qy < 0 ) ? -qxt : qxt;
+				qz = ( matrix( 2, 1 ) + matrix( 1, 2 ) < 0 ) != ( qy < 0 ) ? -qzt : qzt;
+			}
+			else
+			{
+				qx = ( matrix( 0, 2 ) + matrix( 2, 0 ) < 0 ) != ( qz < 0 ) ? -qxt : qxt;
+				qy = ( matrix( 2, 1 ) + matrix( 1, 2 ) < 0 ) != ( qz < 0 ) ? -qyt : qyt;
+			}
+		}
 		return return_type( qx, qy, qz, qw );
 	}
 	
-- 
2.43.0


From f75e554c572adfbb54905038aaf55426e5b79d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:42 +0000
Subject: [PATCH 54/68] fix: axis and angle of rotations by 0 or 360 degrees or
 with rounding errors were NaN

---
 src/utMath/Quaternion.h        | 19 ++++++++++---------
 src/utMath/Util/RotationCast.h |  8 ++++++--
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..8f37b0e 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -37,6 +37,7 @@
 #include <utCore.h>
 #include "Vector.h"
 #include <math.h>
+#include <algorithm> // std::min, std::max
 
 
 // WARNING: all boost/serialization headers should be
@@ -177,7 +178,7 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{ return 2 * acos( std::min( 1.0, w() > 0 ? w() : -w() ) ); }
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
@@ -322,16 +323,16 @@ void Quaternion::toMatrix( M& matrix ) const
 template< typename T >
 void Quaternion::toAxisAngle( Math::Vector< T, 3 >& axis, T& angle )
 {
-	// assuming quaternion normalised then w is less than 1, so term always positive.
-	angle = 2 * acos( a );
+	// assuming quaternion normalised then w is less than 1, but for rounding errors
+	angle = 2 * acos( std::max( -1.0, std::min( 1.0, a ) ) );
 	
-	double s = sqrt( 1 - a*a );
+	double s = sqrt( b*b + c*c + d*d );
 	// test to avoid divide by zero, s is always positive due to sqrt
-	if (s < 0.001) { 
-		// if s close to zero then direction of axis not important
-		axis( 0 ) = b; // if it is important that axis is normalised then replace with x=1; y=z=0;
-		axis( 1 ) = c;
-		axis( 2 ) = d;
+	if ( !( s > 0 ) ) { 
+		// no rotation, the direction of the axis is not important
+		axis( 0 ) = 1;
+		axis( 1 ) = 0;
+		axis( 2 ) = 0;
 	} else {
 		axis( 0 ) = b / s; // normalise axis
 		axis( 1 ) = c / s;
diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index a110a86..7909a61 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -33,6 +33,7 @@
 #ifndef __UBITRACK_MATH_UTIL_ROTATION_CAST_H_INCLUDED__
 #define __UBITRACK_MATH_UTIL_ROTATION_CAST_H_INCLUDED__
 
+#include <algorithm> // std::min, std::max
 #include <cmath> // std::sqrt, std::cos, std::sin
 
 namespace Ubitrack { namespace Math { 
@@ -184,8 +185,11 @@ struct RotationCast< Math::Vector< T, 4 > >
 	
 	return_type operator()( const Math::Quaternion & quat ) const
 	{
-		const T angle = 2 * std::acos( quat.w() );
-		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		const T angle = 2 * std::acos( std::max( -1., std::min( 1., quat.w() ) ) );
+		const T divisor = std::sqrt( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() );
+		if ( divisor != divisor || divisor < 1e-10 )
+			return return_type( 0, 0, 0, 0 );
+
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
-- 
2.43.0


From d819d62a6c9c79b2465d6bfbf91651f38ae4241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:51 +0000
Subject: [PATCH 55/68] fix: axis of the matrix of a half turn was not a number

---
 src/utMath/Util/RotationCast.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 7909a61..98f4e2c 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -220,7 +220,12 @@ struct RotationCast< Math::Vector< T, 4 > >
 		// return RotationCast< return_type >()( quat );
 		
 		/// @todo put in more checks, this transformation is not really reliable at the moment
-		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
+		const T cosAngle = ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2;
+		// the differences below vanish for half turns
+		if ( cosAngle < -0.9999 )
+			return RotationCast< return_type >()( RotationCast< Math::Quaternion >()( matrix ) );
+
+		const T angle = std::acos( cosAngle );
 		if ( angle != angle || angle < 1e-10 )
 			return return_type( 0, 0, 0, 0 );
 		
-- 
2.43.0


From 6cc0f6d479b91a3ad11e7c6c1975a36ce5365a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:12 +0000
Subject: [PATCH 56/68] fix: quaternions of near half turn matrices were
 computed from a vanishing component

---
 src/utMath/Quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..2c46c6e 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,7 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	if (T > 1) { // otherwise T is not the largest of the four alternatives and may be all but 0
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
-- 
2.43.0


From 78172846a77489cd9c41976247c4dc5d8604cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:21 +0000
Subject: [PATCH 57/68] fix: Euler angles at the south pole had the wrong sign

---
 src/utMath/Quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 2c46c6e..0515660 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -188,7 +188,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	// Singularity at south pole
 	if ( beta < -0.998 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From 2b0af07928f64108366fafc41b5386a15a1a0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:38 +0000
Subject: [PATCH 58/68] fix: Euler angles within 3.6 degrees of the poles were
 those of the pole

---
 src/utMath/Quaternion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 0515660..b89c1d6 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -177,7 +177,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	double beta  = 2 * ( w_*y_ + sign*x_*z_ );
 
 	// Singularity at north pole
-	if ( beta > 0.998 ) 
+	if ( beta > 1 - 1e-14 ) 
 	{
 		alpha = 2 * atan2( x_, w_ );
 		beta  = boost::math::constants::pi<double>() / 2;
@@ -186,7 +186,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 		return Vector< double, 3 >( alpha, beta, gamma );
 	}
 	// Singularity at south pole
-	if ( beta < -0.998 ) 
+	if ( beta < -1 + 1e-14 ) 
 	{
 		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
-- 
2.43.0


From f90f8ec84168e16172d3889fbc1e4617e11f1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:58 +0000
Subject: [PATCH 59/68] fix: aligned relative poses were rotated the other way
 round

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..8a4fa83 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -311,7 +311,8 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		
 		if( angle > 3.1415926535897932384626433832795 )
 		{
-			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
+			// the same rotation the other way round
+			const T new_angle = angle - (2*3.1415926535897932384626433832795);
 			const T ratio = new_angle/angle;
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
-- 
2.43.0


From 822d15aa3e491d8ccc13b7fa510cbf157659c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 60/68] fix: pose selection compared every cluster with the
 first pose only

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index 8a4fa83..1ccd683 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -507,7 +507,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose, ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
-- 
2.43.0


From 01f42e54feb606df9fa1a3869a3c6296ad657f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 61/68] fix: pose selection returned uninitialised poses for
 empty clusters

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
index 2718ad8..657fac3 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
@@ -122,6 +122,10 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 				}
 			}
 		}
+		// no pose belongs to this cluster
+		if( max_dist == 10000 )
+			continue;
+
 		*itEye++ = Math::pose_cast< output_type >()( nearestPoseA );
 		*itHand++ = Math::pose_cast< output_type >()( nearestPoseB );
 		// selected_a.push_back( nearestPoseA );
-- 
2.43.0


From e7e4d5c1e8deaf6e5b543057a3eb0f7b3e198f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 62/68] fix: pose selection asserted the opposite of its
 precondition

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index 1ccd683..dc94c38 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -467,7 +467,7 @@ protected:
 	{
 		const std::size_t nIn = std::distance ( itBegin, itEnd );
 		const std::size_t nIs = std::distance ( relPoseList.begin(), relPoseList.end() );
-		assert( nIn <= nIs );
+		assert( nIs <= nIn );
 		
 		InputIterator it = itBegin;
 		std::advance( it, nIs );
-- 
2.43.0


From 0647b06c700648a3c892fe6d47bc4f45c116ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:15 +0000
Subject: [PATCH 63/68] fix: robust tip calibration returned an uninitialised
 position on failure

---
 src/utAlgorithm/ToolTip/Ransac.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/ToolTip/Ransac.h b/src/utAlgorithm/ToolTip/Ransac.h
index f174384..a8d21d1 100644
--- a/src/utAlgorithm/ToolTip/Ransac.h
+++ b/src/utAlgorithm/ToolTip/Ransac.h
@@ -104,11 +104,13 @@ bool estimatePosition3D_6D( Math::Vector< T, 3 >& pw
 {
 	Math::Vector< T, 6 > resultVector;
 	const std::size_t inlier = Math::Optimization::ransac( iBegin, iEnd, resultVector, ToolTip::Ransac< T >(), params  );
+	if ( inlier == 0 )
+		return false;
 	
 	pw = Math::Vector< T, 3 > ( resultVector[ 0 ], resultVector[ 1 ], resultVector[ 2 ] );
 	pm = Math::Vector< T, 3 > ( resultVector[ 3 ], resultVector[ 4 ], resultVector[ 5 ] );
 	
-	return ( inlier > 0 );
+	return true;
 }
 
 UBITRACK_EXPORT bool estimatePosition3D_6D( Math::Vector3f& pw
-- 
2.43.0


From 7555cfb3e0341c4642282c28adbdefa70870fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:23 +0000
Subject: [PATCH 64/68] fix: pose measurements with the quaternion of opposite
 sign were fused with wrong position/rotation covariance

---
 src/utTracking/PoseKalmanFilter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utTracking/PoseKalmanFilter.cpp b/src/utTracking/PoseKalmanFilter.cpp
index b44df32..105a9d7 100644
--- a/src/utTracking/PoseKalmanFilter.cpp
+++ b/src/utTracking/PoseKalmanFilter.cpp
@@ -117,7 +117,11 @@ void PoseKalmanFilter::addPoseMeasurement( const Measurement::ErrorPose& m )
 	
 	// negate quaternion
 	if ( ublas::inner_prod( rotSubState, ublas::subrange( v.value, 3, 7 ) ) < 0 )
+	{
 		ublas::subrange( v.value, 3, 7 ) *= -1;
+		ublas::subrange( v.covariance, 0, 3, 3, 7 ) *= -1;
+		ublas::subrange( v.covariance, 3, 7, 0, 3 ) *= -1;
+	}
 	
 	// measurement update:
 	Math::Stochastic::kalmanMeasurementUpdate( m_state, m_covariance, PoseMeasurement( iR ), v.value, v.covariance, 0, iR + 4 );
-- 
2.43.0


From 2a01accd5aae2edc644df26e975cfb8beae32341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 65/68] fix: camera intrinsics built from an image size ignored
 that size

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 9075411..31917fb 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -195,7 +195,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >( width ? width : static_cast< std::size_t >( size( 0 ) ), height ? height : static_cast< std::size_t >( size( 1 ) ) ))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From 04f19b49e77f03fec71143b93428e3b484f66472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 66/68] fix: string archives lost all but six digits of every
 number

---
 src/utUtil/SimpleStringOArchive.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SimpleStringOArchive.h b/src/utUtil/SimpleStringOArchive.h
index 9fbf2ed..a711572 100644
--- a/src/utUtil/SimpleStringOArchive.h
+++ b/src/utUtil/SimpleStringOArchive.h
@@ -51,7 +51,10 @@ public:
 	/** default constructor */
 	SimpleStringOArchive()
 		: m_count( 0 )
-	{}
+	{
+		// enough digits to read back exactly the same number
+		m_stream.precision( 17 );
+	}
 
 	/** get string */
 	std::string str()
-- 
2.43.0


From cb25dd58a112595d4516398cded70418d874b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 67/68] fix: lists written to a string archive were misread
 (item version not skipped)

---
 src/utUtil/SimpleStringIArchive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SimpleStringIArchive.h b/src/utUtil/SimpleStringIArchive.h
index 3ca5f07..adae03b 100644
--- a/src/utUtil/SimpleStringIArchive.h
+++ b/src/utUtil/SimpleStringIArchive.h
@@ -144,8 +144,9 @@ public:
 	// required for boost::serialization
     typedef boost::mpl::bool_<true> is_loading;
     typedef boost::mpl::bool_<false> is_saving;
+	/// written lists contain an item version, which has to be read again
 	unsigned int get_library_version() const 
-	{ return 0; }
+	{ return 10; }
 	void reset_object_address( void*, void* )
 	{}	
 };
-- 
2.43.0


From d23e7afaf74570cc75b9153c93bbf152eaab8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:02 +0000
Subject: [PATCH 68/68] fix: least-squares clock synchronisation mishandled
 times before its first event

---
 src/utMeasurement/TimestampSyncLS.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMeasurement/TimestampSyncLS.h b/src/utMeasurement/TimestampSyncLS.h
index 61ec846..aedc1ec 100644
--- a/src/utMeasurement/TimestampSyncLS.h
+++ b/src/utMeasurement/TimestampSyncLS.h
@@ -82,7 +82,7 @@ public:
 		if ( m_events == 0 )
 			m_firstLocal = local;
 
-		double fLocal = static_cast< double >( local - m_firstLocal );
+		double fLocal = static_cast< double >( static_cast< long long >( local - m_firstLocal ) );
 		double fExtrapolated, deviationSquare, thresholdSquare;
 		double fGain, var;
 		
@@ -135,7 +135,7 @@ public:
 		m_events++;
 
 		// return the input value for the first 10 times
-		return m_firstLocal + static_cast< Timestamp >( fExtrapolated );
+		return m_firstLocal + static_cast< long long >( fExtrapolated );
 	}
 
 	unsigned getEventCount() const
-- 
2.43.0

