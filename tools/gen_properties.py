#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Rotation exponential and its integrals are exact",
 "For every rotation vector w, the SO(3) exponential equals the matrix exponential of the skew matrix of w (a proper rotation with Exp(-w) = Exp(w)^T), the m-th integral Gamma_m(w) equals sum_n skew(w)^n/(n+m)! for every supported order m, and the left/right Jacobians are Gamma_1(w) and Gamma_1(-w). For vanishing w all of them go continuously to I/m!.",
 ["inputs"], "every rotation vector w in R^3 (including zero and vectors close to zero) and every order m in 0..5",
 "No existing test calls these functions with a non-zero rotation; a wrong coefficient or sign in one Gamma order is invisible to the single yaw-free test scenario.",
 ["src/math/lie_group.cpp", "include/drift/math/lie_group.h"],
 [("closed forms for m=0,1,2 and general recursion", "Gamma_SO3"), ("Jacobian wrappers", "LeftJacobian_SO3, RightJacobian_SO3")],
 observe=["return values of the lie_group functions"])

prop("C02", "Extended-pose group operations are mutually consistent",
 "For every rotation, every set of K vectors and every tangent vector: the SE_K(3) exponential is (Exp(w), J_l(w) u_1, ..., J_l(w) u_K) in the same column order, the inverse of a state composed with the state is the identity, and the adjoint of X maps tangent vectors such that Ad(X Y) = Ad(X) Ad(Y) and X Exp(xi) X^-1 = Exp(Ad(X) xi) to first order (Ad(X) xi is the derivative). The standalone pose class obeys the same laws: accessors return what was set, products compose and the inverse undoes the pose.",
 ["inputs"], "every X, Y in SE_K(3) and every tangent vector, K in 1..4",
 "No test evaluates the exponential, inverse or adjoint on a non-trivial element; algebraic laws must hold for all group elements.",
 ["src/math/lie_group.cpp", "src/math/se_k_3.cpp", "src/state/robot_state.cpp"],
 [("SE_K(3) exponential", "Exp_SEK3"), ("adjoint", "Adjoint_SEK3"), ("state inverse", "RobotState::get_Xinv"), ("pose class", "SEK3")],
 observe=["return values of the lie_group functions, the pose class and the state accessors"])

prop("C03", "IMU propagation of the mean is the exact strapdown solution",
 "Propagating with an inertial sample over an interval dt moves attitude, velocity and position to the exact solution of dR/dt = R w^, dv/dt = R a + g, dp/dt = v, where w and a are the sample's angular rate and specific force rotated to the body frame, with bias and (for acceleration) the lever-arm centripetal term w x (w x t) removed, held constant over dt, and g = (0,0,-9.80). Biases and augmented contact positions do not change, and the state's time and last-propagation time become the time of the sample used.",
 ["inputs", "configurations"], "every state, every inertial sample, every positive dt, every sensor rotation/translation, both error types, bias estimation on or off, 0..2 augmented columns",
 "The only scenario test uses identity rotations, zero biases and dt = 1 with few samples; the claim is about all rates, attitudes, mountings and dt.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/math/lie_group.cpp"],
 [("strapdown mean propagation", "ImuPropagation::Propagate")], 
 state=[("X, Theta, t, t_prop", "state mean, biases and times", "RobotState")],
 observe=["state after one propagation step"])

prop("C04", "Covariance propagation matches the linearised error dynamics",
 "One propagation step maps the covariance P to Phi P Phi^T + Phi G Qc (Phi G)^T dt, where Phi is the exact transition matrix of the invariant error dynamics (attitude, velocity, position, contact positions, gyroscope and accelerometer biases) for the configured error type, G is the identity for the left-invariant and the adjoint of the state before the step for the right-invariant error, and Qc carries the configured gyroscope, accelerometer, bias and contact noises. This holds for zero, small and large rotation rates alike.",
 ["inputs", "configurations"], "every state, sample, dt, covariance and noise level, both error types, bias estimation on or off, 0..2 augmented columns",
 "No test reads the covariance; the long closed-form bias columns of Phi would have to be right for every rate, acceleration and dt.",
 ["src/filter/inekf/propagation/imu_propagation.cpp"],
 [("analytic transition matrix", "ImuPropagation::StateTransitionMatrix"), ("discrete noise", "ImuPropagation::DiscreteNoiseMatrix")],
 observe=["covariance of the state after one propagation step"])

prop("C05", "Invariant corrections are optimal Kalman updates",
 "A right- (left-) invariant observation with innovation Z, matrix H and noise N updates the mean by X <- Exp(K Z) X (X <- X Exp(K Z)) with bias increment from the same K Z, where K = P H^T (H P H^T + N)^-1 and P is the prior covariance expressed in the right (left) error, and sets the covariance to (I-KH) P (I-KH)^T + K N K^T expressed back in the configured error type at the updated state. The only deviations are the documented ones: right-invariant observations freeze the yaw gyroscope bias (no increment, covariance row and column cleared, variance 1e-4), and with bias estimation off the bias block is decoupled with variance 1e-4.",
 ["inputs", "configurations"], "every state, covariance, observation Z/H/N of 3 and 6 rows, both error types, bias estimation on or off",
 "No test checks a gain or a posterior covariance; equality must hold for all priors and observations.",
 ["src/filter/inekf/inekf.cpp"],
 [("right-invariant correction", "CorrectRightInvariant"), ("left-invariant correction", "CorrectLeftInvariant")],
 observe=["state mean, biases and covariance after a correction"])

prop("C06", "The error representation does not change the estimate",
 "Two filters that differ only in the configured error type (left- or right-invariant) and start from the same mean with covariances that correspond through the adjoint of that mean, keep identical means and corresponding covariances through every propagation, velocity correction, legged correction and contact insertion or removal. The position/yaw gauge is respected as well: translating the world frame or rotating it about gravity commutes with propagation and correction.",
 ["inputs", "histories"], "every state, covariance, inertial sample, velocity and legged measurement; one step of every kind from an arbitrary corresponding pair (hence histories of any length)",
 "Needs two filters compared over all inputs; tests only run one error type on one scenario.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/inekf.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/filter/inekf/correction/velocity_correction.cpp"],
 [("adjoint mapping of covariance", "CorrectRightInvariant / CorrectLeftInvariant, StateTransitionMatrix, DiscreteNoiseMatrix")],
 observe=["states of the two filters"])

prop("C07", "Covariances stay symmetric and positive semidefinite",
 "If the covariance is symmetric positive semidefinite before an operation, it is so after every propagation, invariant correction, velocity or legged correction, contact insertion and contact removal, and its size stays 3 x (state columns) + (bias size) - 6 in step with the state. The process-noise matrix keeps the same size as the covariance.",
 ["inputs", "histories"], "every state and every PSD covariance (given as L L^T), one operation of every kind from an arbitrary pre-state with 0..3 contacts",
 "A loss of symmetry or definiteness needs particular covariances; no test inspects it.",
 ["src/filter/inekf/inekf.cpp", "src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/state/robot_state.cpp"],
 [("Joseph form", "CorrectRightInvariant"), ("congruence forms F P F^T + G cov G^T", "LeggedKinematicsCorrection::Correct"), ("row/column removal", "RobotState::del_aug_state")],
 observe=["covariance after every operation"])

prop("C08", "Velocity correction fuses the measured body velocity correctly",
 "A velocity measurement is rotated from the sensor to the body frame and multiplied by the configured scale, the innovation is R (body velocity) - v, the noise is the configured velocity variance rotated to the world frame, and the filter applies exactly the Kalman update that observes the world velocity. Velocity initialisation sets v = R (body velocity) from the newest queued measurement with the same rotation and scale, and both set the state's time to that of the measurement used.",
 ["inputs", "configurations"], "every state, covariance, velocity, sensor rotation, scale, noise and both error types",
 "The scenario test uses identity rotation and unit scale, so a dropped rotation or scale does not show.",
 ["src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/inekf.cpp"],
 [("observation model", "VelocityCorrection::Correct"), ("velocity initialisation", "VelocityCorrection::initialize")],
 observe=["state after the correction / initialisation"])

prop("C09", "Velocity correction only uses timely measurements, oldest first",
 "Relative to the last propagation time T, one velocity correction call takes queued measurements in order: measurements older than T minus the time threshold are discarded, the first one in [T - threshold, T) is applied and removed, and a measurement at or after T is never applied and stays queued. The call reports success exactly when a measurement was applied, and when none was the state is unchanged.",
 ["inputs", "histories", "schedules"], "every queue of up to 4 measurements with arbitrary time stamps, every T and threshold",
 "Depends on the order relations among many time stamps; the test uses one regular pattern.",
 ["src/filter/inekf/correction/velocity_correction.cpp"],
 [("queue scan", "VelocityCorrection::Correct")], observe=["queue contents, return value and state after a call"])

prop("C10", "Legged correction only uses timely measurements, oldest first",
 "Relative to the last propagation time T, one legged correction call takes queued measurements in order: measurements older than T minus the time threshold are discarded, and the first remaining one is applied and removed if it is no newer than T plus the threshold. A measurement newer than that is skipped without touching the state or the tracked contacts, and the call reports success exactly when a measurement was applied.",
 ["inputs", "histories", "schedules"], "every queue of up to 3 measurements with arbitrary time stamps, every T and threshold",
 "No test drives the legged correction at all.",
 ["src/filter/inekf/correction/legged_kinematics_correction.cpp"],
 [("queue scan", "LeggedKinematicsCorrection::Correct")], observe=["queue contents, return value and state after a call"])

prop("C11", "Contacts map to the right state columns through any contact history",
 "After any sequence of legged corrections, the state holds exactly one augmented column per leg currently in contact, a leg's column keeps its world position while other legs are added or removed, and each later measurement of a leg corrects that leg's own column. State, covariance and process noise shrink and grow together, and a leg that loses and regains contact starts from a fresh position.",
 ["histories", "inputs"], "every sequence of up to 3 contact patterns of 4 legs (quick: representative prefixes, all patterns), arbitrary leg kinematics and states",
 "The index bookkeeping breaks only for particular orders of touch-down and lift-off; no test touches it.",
 ["src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/state/robot_state.cpp"],
 [("leg id to column map", "LeggedKinematicsCorrection::Correct"), ("shared index decrement", "RobotState::del_aug_state")],
 state=[("leg id -> column index", "shared integer per leg", "LeggedKinematicsCorrection, RobotState")],
 observe=["state columns, covariance and process noise after each call"])

prop("C12", "Contact insertion and removal transform mean, covariance and noise exactly",
 "A new contact enters at p + R * (leg position) with covariance and cross-covariance F P F^T + G C G^T for the error type in use, where C = J sigma_enc^2 J^T + sigma_kin^2 I is the leg's measurement covariance; removing a contact marginalises exactly its rows and columns and leaves every other entry unchanged. Every tracked contact carries the configured contact process noise from insertion to removal, whatever other contacts come and go.",
 ["inputs", "histories"], "every state, covariance, leg kinematics, noise level, both error types, 0..3 contacts already present, every position of the removed contact",
 "Not reached by any test; block indices must be right for every number and order of contacts.",
 ["src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/state/robot_state.cpp"],
 [("augmentation Jacobians", "LeggedKinematicsCorrection::Correct"), ("noise growth", "RobotState::add_aug_state"), ("row/column removal", "RobotState::del_aug_state")],
 observe=["covariance and process-noise matrix after insertion / removal"])

prop("C13", "Stacked contact observations are fused as one correct Kalman update",
 "When several tracked legs are in contact, one legged correction applies the single Kalman update with, for each such leg in turn, the innovation R (leg position) - (d - p), an observation of d - p, and noise R C R^T with C = J sigma_enc^2 J^T + sigma_kin^2 I, all legs mutually independent. Legs not in contact or not yet tracked contribute nothing.",
 ["inputs", "configurations"], "every state, covariance, leg positions/Jacobians, noise levels, 1..2 tracked legs in contact, both error types",
 "Not reached by any test; needs symbolic covariances to show no block is misplaced.",
 ["src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/filter/inekf/inekf.cpp"],
 [("stacking of Z, H, N", "LeggedKinematicsCorrection::Correct")], observe=["state mean and covariance after the correction"])

prop("C14", "Leg forward kinematics and all its Jacobians agree",
 "For every joint configuration and each of the four legs: the foot pose matrix consists of a proper rotation equal to the foot rotation and of the foot position; the position Jacobian is the exact derivative of the foot position; and the spatial and body Jacobians (and their linear/angular parts) are the exact velocities of that pose in the body and foot frames. A leg depends only on its own three joints, and left/right legs are mirror images.",
 ["inputs"], "every 12-vector of joint angles, each of the 4 legs",
 "Existing tests compare a few sampled positions; the 40 generated functions have to agree at every configuration.",
 ["src/kinematics/robots/mini_cheetah/", "include/drift/kinematics/robots/mini_cheetah/"],
 [("generated kinematics", "p_/R_/H_/Jp_/Jb_/Js_/Jvb_/Jvs_/Jwb_/Jws_Body_to_*Foot")], observe=["return values of the kinematics functions"])

prop("C15", "Legged measurements report each leg's own kinematics and stance velocity",
 "After computing the kinematics, a mini-cheetah measurement returns for every leg the foot position and 3x3 Jacobian of that leg for the stored joint angles, and contact flags and joint angles as stored. Its initial body velocity is -(J dq) - w x p of the first leg in contact (front right, front left, hind right, hind left), i.e. the velocity that keeps that foot at rest in the world, and zero if no leg is in contact.",
 ["inputs", "configurations"], "every joint angle/velocity vector, angular velocity and all 16 contact patterns",
 "The tests check positions on samples only; leg ordering and the velocity formula over all contact patterns are unchecked.",
 ["src/kinematics/mini_cheetah_kinematics.cpp", "src/measurement/legged_kinematics.cpp"],
 [("kinematics cache", "MiniCheetahKinematics::ComputeKinematics"), ("stance velocity", "MiniCheetahKinematics::get_init_velocity")],
 observe=["accessors of the measurement"])

prop("C16", "Measurement containers are faithful and reject bad quaternions",
 "Every measurement object reports the type of its class, returns exactly the values, time stamp and header stored last, starts at time zero, and keeps its fields independent of each other. An inertial measurement's orientation accepts exactly the quaternions whose squared norm differs from one by less than 1e-5, rejects every other (including NaN and infinite components) with an exception that leaves the stored orientation unchanged, and its rotation matrix is that of the stored quaternion.",
 ["inputs"], "every component value including NaN and infinities, every measurement class and constructor",
 "Tests store a few ordinary values; non-finite components and near-threshold norms are never tried.",
 ["include/drift/measurement/impl/imu_impl.cpp", "include/drift/measurement/impl/", "src/measurement/measurement.cpp", "src/measurement/legged_kinematics.cpp", "include/drift/measurement/odom.h"],
 [("quaternion validation", "ImuMeasurement::set_quaternion"), ("type tags", "Measurement constructors")], observe=["accessors, exceptions"])

prop("C17", "Gyro filter steps are exact Kalman steps and output messages are faithful",
 "In the angular-velocity filter, a gyro propagation adds the change of the propagation gyro to the rate estimate, random-walk propagation leaves it, and both add the process noise to the covariance; an IMU (rate plus bias) or body-rate (rotated to the IMU frame, rate only) correction is the Kalman update for its configured noise, on all three axes when flat_ground is set and on the yaw axis only otherwise. Each correction emits one message that carries the updated rate estimate, the time of the measurement that caused it and the remaining fields of the IMU message it is based on, and leaves the input message unmodified.",
 ["inputs", "configurations"], "every estimate, covariance reached from symbolic noise levels, measurement, time stamp, sensor rotation, both ground modes, up to 2 steps",
 "The filter has no test.",
 ["src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("propagation", "ImuAngVelEKF::GyroPropagate, RandomWalkPropagate"), ("correction", "AngVelFilterCorrectIMU, AngVelFilterCorrectEncoder")],
 observe=["messages on the filtered IMU queue"])

prop("C18", "Gyro filter consumes measurements in time order, exactly once",
 "A fusion step with both sensors takes the measurement with the earlier time stamp (the IMU one on a tie) and leaves the other queued; a body-rate measurement is dropped as long as no inertial message has been seen, and in steps with an inertial correction a measurement that is older than the last gyro propagation by more than the threshold is consumed without any update or output (a single-IMU filter with gyro propagation leaves a measurement queued until a propagation at least as new exists). Every consumed measurement yields at most one output message, empty queues yield none, and no output repeats an earlier message.",
 ["inputs", "histories", "schedules"], "all queues of up to 2 measurements per sensor with arbitrary time stamps, all correction methods, up to 3 fusion steps",
 "The filter has no test; order relations and stale data must be covered exhaustively.",
 ["src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("queue arbitration", "SingleImuAngVelCorrection, SingleImuCorrection, MultiImuCorrection, AngVelCorrection")],
 observe=["input queues and the filtered IMU queue"])

prop("C19", "Gyro filter initialisation and reset are well defined",
 "With static initialisation the bias estimate is the mean of exactly the configured number of first rates of the correction IMU, the rate estimate is zero and measurements received meanwhile are discarded; otherwise the bias starts at the configured prior. No output is produced before initialisation completes, no estimate is ever NaN for finite inputs, and clearing the filter in any configuration empties every input and output queue it uses.",
 ["inputs", "configurations", "histories"], "bias sample counts 0..3, every rate value, all sensor combinations",
 "The filter has no test.",
 ["src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("initialisation", "ImuAngVelEKF::InitializeFilter, RunOnce"), ("reset", "ImuAngVelEKF::clear")], observe=["filtered IMU queue, input queues"])

prop("C20", "Static IMU bias initialisation averages the configured samples",
 "With static initialisation the biases become the mean, over exactly the configured number of first samples, of the body-frame angular rate and of the body-frame specific force with lever-arm and gravity removed (using the sample's orientation when enabled), and until then initialisation is reported as incomplete; without static initialisation the configured priors are used at once. The resulting biases are never NaN for finite samples, whatever the configured count.",
 ["inputs", "configurations", "histories"], "counts 0..3, every sample, sensor rotation/translation, orientation use on or off",
 "No test runs static initialisation.",
 ["src/filter/inekf/propagation/imu_propagation.cpp"],
 [("bias averaging", "ImuPropagation::InitImuBias")], observe=["estimated biases, initialised flag, queue"])

prop("C21", "State initialisation sets exactly the documented initial estimate",
 "Initialisation starts only once inertial data is available and then sets position zero, attitude identity or the orientation reported by the first sample, velocity from the last registered correction's newest measurement (zero relative motion of the stance foot for the bias-free body rate, or the measured body velocity), biases from bias initialisation, times from the measurements, and the configured rotation, velocity, position and bias variances with no cross-correlation. It publishes this initial state once and enables the filter.",
 ["inputs", "configurations"], "every sample, measurement and configuration value; velocity and legged corrections",
 "The scenario test uses one zero-motion start.",
 ["src/estimator/inekf_estimator.cpp", "src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp"],
 [("initialisation", "InekfEstimator::InitState"), ("mean", "ImuPropagation::set_initial_state, Correction::initialize")], observe=["estimator state, published queue, enabled flag"])

prop("C22", "The estimator publishes one faithful snapshot per update that added information",
 "A run step publishes exactly one state if a propagation or at least one correction used a measurement, and none otherwise; the published state equals the estimator's current state at that moment and never changes afterwards. Within a step the propagation comes first and every registered correction is offered the data once, in registration order, and consumed inertial samples are used once each, in order, one step late.",
 ["inputs", "histories"], "every availability pattern of inertial, velocity and legged data over up to 3 steps",
 "Tests only count outputs of a single regular sequence.",
 ["src/estimator/inekf_estimator.cpp", "src/filter/inekf/propagation/imu_propagation.cpp"],
 [("run step", "InekfEstimator::RunOnce")], observe=["published state queue, estimator state"])

prop("C23", "Clearing the estimator makes it behave like a fresh one",
 "After clear, all sensor and output queues are empty, the filter is disabled and its state equals the default initial state, and re-initialising and running it on any data produces exactly the states that a newly constructed estimator with the same IMU bias calibration produces (clearing keeps the calibration; only InitState has to be called again). Tracked contacts, times, flags and pending data of earlier runs leave no trace.",
 ["histories", "inputs"], "every history of up to 2 steps before the clear, arbitrary data after it",
 "No test calls clear.",
 ["src/estimator/inekf_estimator.cpp", "src/state/robot_state.cpp", "src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/"],
 [("reset", "InekfEstimator::clear, RobotState::clear, Propagation/Correction::clear")], observe=["published states, queues"])

prop("C24", "Shared queues are only touched under their lock, and locks are always released",
 "Every access to a sensor or output queue that producers or consumers share happens while the mutex paired with that queue is held, every public operation releases each lock it takes on every path (including early returns), and no operation takes a mutex it already holds or holds two at once in conflicting order. Measurements that arrive between any two lock operations are neither lost nor duplicated.",
 ["schedules", "histories"], "every path of every public operation of propagation, corrections, estimator and gyro filter, with producers acting between any two lock operations (up to 2 arrivals)",
 "Data races and leaked locks depend on thread schedules and rare early-return paths that single-threaded tests never exercise.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/estimator/inekf_estimator.cpp", "src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("lock/unlock pairs around queue access", "all methods that use a sensor data buffer")], observe=["lock and queue operations"])

prop("C25", "Robot state container: accessors, frames and dimensions are consistent",
 "Every constructor yields identity covariance and zero process noise of the size matching the state (or the given values), setters change exactly the addressed block and getters return it, body-frame and world-frame views are R^T-related and inverse views compose to identity, and block-diagonal copies contain the state the requested number of times. Augmented vectors and biases can be added and removed by index without affecting the others, and a freshly constructed or cleared state has defined times, rates and flags.",
 ["inputs", "histories"], "every matrix entry value, 0..3 augmented columns/biases, every index",
 "Only exercised indirectly with a 5-column state.",
 ["src/state/robot_state.cpp", "include/drift/state/robot_state.h"],
 [("accessors", "RobotState")], observe=["accessors of the state"])

prop("C26", "Disabling bias estimation keeps the biases fixed",
 "With bias estimation disabled, no propagation and no correction through the filter changes the gyroscope or accelerometer bias estimates, and the rest of the estimate does not depend on bias uncertainty or on its correlation with the pose. With it enabled, the yaw gyroscope bias is the only bias component that velocity and contact corrections leave unchanged.",
 ["inputs", "histories", "configurations"], "every state, covariance, sample and measurement; one propagation and one correction of each kind, both error types",
 "Needs all covariances with arbitrary cross-correlations; tests have biases at zero.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/inekf.cpp"],
 [("bias decoupling", "Propagate, CorrectRightInvariant, CorrectLeftInvariant")], observe=["biases and pose after each operation"])

prop("C27", "Configuration values and documented defaults take effect",
 "Every setting, noise and prior that the estimator, the inertial propagation and the corrections read from their configuration changes the computed estimate as documented, and leaving an optional key out gives the documented default (noises 0.1 for inertial and velocity, 0.01/0.05/0.1 for encoder/kinematics/contact, threshold 0.3 s, unit scale, identity mounting rotation, zero lever arm, initial variances 0.03/0.01/0.00001).",
 ["configurations"], "every value of every numeric key and presence or absence of each key",
 "Tests load one configuration.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/estimator/inekf_estimator.cpp", "config/"],
 [("YAML loading in constructors", "constructors taking a yaml path")], observe=["estimates computed with the loaded configuration"])

prop("C28", "Slip detection follows its documented threshold",
 "The slip step raises the slip flag exactly when the squared norm of the last augmented vector divided by 0.001 exceeds 4.642 and clears it otherwise, and it changes nothing else in the state.",
 ["inputs"], "every state with 1..2 augmented columns",
 "Never executed by the tests.",
 ["src/estimator/inekf_estimator.cpp"], [("chi-square test", "InekfEstimator::SlipEstimatorStep")], observe=["slip flag and state"])

prop("C29", "Wheel-odometry baseline dead-reckons the measured body velocity",
 "The wheel-odometry baseline consumes velocity and angular-velocity measurements in pairs, in order, only when both are available; the first pair starts the clock. Every later pair advances position by R v dt and attitude by Exp(w dt), with R the attitude before the step and dt the difference of the velocity time stamps, and poses are logged in time-position-quaternion order no more often than the configured rate.",
 ["inputs", "histories"], "every velocity, angular velocity and time step over up to 3 pairs, arbitrary availability",
 "The baseline has no test and is not part of the library build.",
 ["baselines/src/wheel_odometry", "baselines/include/wheel_odometry"], [("integration", "WheelOdometry::RunOnce, Integrate"), ("logging", "WheelOdometry::LogPose")], observe=["pose log"])

prop("C30", "The pose logger writes every due state once, in order, and loses nothing",
 "With pose logging enabled, every state produced by a run step that is due at the configured rate (at least one period after the last logged one) is written exactly once, in order, as time, position and quaternion (x y z w) to the pose file and as time and velocity to the world-frame and body-frame velocity files, whose names derive from the configured ones. States still queued at destruction are written; clear starts new files and a new rate clock; with logging disabled no file or thread is created; no schedule of filter and logger thread races or deadlocks.",
 ["inputs", "schedules", "histories"], "every state value; every interleaving of the filter and logger threads at lock operations with bounded preemptions; up to 4 run steps with an optional clear",
 "The tests disable the logger; lost rows depend on when the logger thread runs.",
 ["src/estimator/inekf_estimator.cpp", "include/drift/estimator/inekf_estimator.h"],
 [("logger thread", "InekfEstimator::PoseLoggingThread"), ("start and stop", "InekfEstimator::InitState, clear, ~InekfEstimator")], observe=["contents of the log files"])

prop("C31", "ROS subscribers turn every message into exactly one correct measurement",
 "Each ROS subscriber appends one measurement per message received on its topics to its own queue and to no other, in order of arrival and under the mutex returned with that queue, with the message's sequence number, frame and time. Values follow the documented conversion: inertial rate (plus the offset message where there is one), acceleration and orientation; linear velocity; wheel rates to forward velocity r (wl + wr)/2 and yaw rate (vr - vl)/track (messages with two or fewer wheels are skipped on the Fetch); joint positions, velocities and contact flags; consecutive odometry poses of one source to the body twist log(T^-1 dP T)/dt with that source's mounting transform T, and nothing when time does not advance.",
 ["inputs", "histories"], "every value of every message field, up to three messages per topic in any order across up to two subscribers of a kind",
 "The ROS adapter is not built or tested here; its errors need several sources or particular messages.",
 ["ROS/drift/src/communication/ros_subscriber.cpp", "ROS/drift/include/communication/ros_subscriber.h"],
 [("callbacks", "ROSSubscriber::*Callback"), ("registration", "ROSSubscriber::Add*Subscriber")], observe=["contents of the returned queues"])

prop("C32", "The ROS publisher publishes every estimated state once, in order and faithfully",
 "Every state placed in the publisher's queue is published exactly once, in order, with its position, attitude, time, frame and an increasing sequence number, and with the covariance of position followed by rotation. The path message holds, in order, every k-th published pose with k = pose rate / path rate. Nothing is published without a state, the queue is touched only under its lock, and both threads end at shutdown for every schedule.",
 ["inputs", "schedules"], "every state and covariance value; up to 4 states and every interleaving of producer, pose and path threads at lock and publish operations with bounded preemptions",
 "The ROS adapter is not built or tested here; its threads poll a queue shared with the filter.",
 ["ROS/drift/src/communication/ros_publisher.cpp", "ROS/drift/include/communication/ros_publisher.h"],
 [("pose thread", "ROSPublisher::PosePublish"), ("path thread", "ROSPublisher::PathPublish")], observe=["published messages"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
