// Blocks of the library: class, signals, commands/parameter types, size of vectors that fits all its inputs (0: none).
struct Row { const char *cls, *signals, *commands; int size; };
static const Row TABLE[] = {
  {"Add_of_double", "sin0 sin1 sout", "", 6},
  {"Add_of_matrix", "sin0 sin1 sout", "", 6},
  {"Add_of_vector", "sin0 sin1 sout", "", 6},
  {"AdmittanceControlOpPoint", "Kd Kp dq dqSaturation force opPose sensorPose w_dq w_force w_forceDes", "init/d resetDq/", 6},
  {"And", "sout", "", 6},
  {"BinaryIntToUint", "sin sout", "", 6},
  {"ClampWorkspace", "alpha alphabar position positionref ref", "", 6},
  {"CoMFreezer", "CoMRef PGInProcess freezedCoM", "", 6},
  {"CompareDouble", "sin1 sin2 sout", "", 6},
  {"CompareVector", "sin1 sin2 sout", "getEqual/ getTrueIfAny/ setEqual/b setTrueIfAny/b", 6},
  {"Component_of_vector", "sin sout", "setIndex/i", 6},
  {"Compose_R_and_T", "sin1 sin2 sout", "", 3},
  {"ControlGR", "acceleration control gravity matrixA", "", 6},
  {"ControlPD", "Kd Kp control desired_position desired_velocity position position_error velocity velocity_error", "", 6},
  {"ConvolutionTemporal", "sin1 sin2 sout", "", 6},
  {"Derivator_of_Matrix", "dt sin sout", "", 6},
  {"Derivator_of_Vector", "dt sin sout", "", 6},
  {"Derivator_of_VectorQuaternion", "dt sin sout", "", 6},
  {"Derivator_of_double", "dt sin sout", "", 6},
  {"DoubleConstant", "sout", "set/d", 6},
  {"Event", "check condition", "addSignal/s list/ repeat/i", 6},
  {"ExpMovingAvg", "average update", "setAlpha/d", 6},
  {"FIRFilter_Vector_Matrix", "sin sout", "getElement/u getSize/ setElement/um setSize/u", 6},
  {"FIRFilter_Vector_double", "sin sout", "getElement/u getSize/ setElement/ud setSize/u", 6},
  {"FIRFilter_double_double", "sin sout", "getElement/u getSize/ setElement/ud setSize/u", 6},
  {"Feature1D", "dim error errorIN jacobian jacobianIN selec", "getReference/ setReference/s", 6},
  {"FeatureGeneric", "dim error errorIN errordot errordotIN jacobian jacobianIN selec", "getReference/ setReference/s", 6},
  {"FeatureJointLimits", "dim error jacobian joint lowerJl selec upperJl widthJl", "actuate/ getReference/ setReference/s", 6},
  {"FeatureLineDistance", "Jq dim error jacobian line position positionRef selec vector", "getReference/ setReference/s", 0},
  {"FeaturePoint6d", "Jq dim error errordot jacobian position selec velocity", "frame/s getFrame/ getReference/ keep/ setReference/s", 6},
  {"FeaturePoint6dRelative", "Jq JqRef dim dotposition dotpositionRef error errordot jacobian position positionRef selec velocity", "frame/s getFrame/ getReference/ initSdes/s keep/ setReference/s", 6},
  {"FeaturePose", "dim error errordot faMfb faMfbDes faNufafbDes jaJja jaMfa jacobian jbJjb jbMfb oMja oMjb selec", "getReference/ keep/i setReference/s", 6},
  {"FeaturePoseSE3", "dim error errordot faMfb faMfbDes faNufafbDes jaJja jaMfa jacobian jbJjb jbMfb oMja oMjb selec", "getReference/ keep/i setReference/s", 6},
  {"FeaturePosture", "dim error jacobian posture postureDot selec state", "getReference/ selectDof/ub setReference/s", 6},
  {"FeatureTask", "dim error errorIN errordot errordotIN jacobian jacobianIN selec", "getReference/ setReference/s", 6},
  {"FeatureVector3", "Jq dim error jacobian position positionRef selec vector", "getReference/ setReference/s", 0},
  {"FeatureVisualPoint", "Jq Z dim error jacobian selec xy", "getReference/ setReference/s", 6},
  {"FilterDifferentiator", "ddx dx x x_filtered", "getSize/ getTimestep/ init/divv switch_filter/vv", 6},
  {"GainAdaptive", "error gain", "set/ddd setByPoint/dddd setConstant/d", 6},
  {"GainHyperbolic", "error gain", "", 6},
  {"GradientAscent", "gradient learningRate value", "", 6},
  {"GripperControl", "position positionDes positionFullIN reference selec torque torqueFullIN torqueLimit torqueLimitFullIN", "offset/d", 6},
  {"HomoToMatrix", "sin sout", "", 6},
  {"HomoToRotation", "sin sout", "", 6},
  {"HomoToTwist", "sin sout", "", 6},
  {"IntegratorEulerDoubleDouble", "derivativesout sin sout", "getSamplingPeriod/ initialize/ popDenomCoef/ popNumCoef/ pushDenomCoef/d pushNumCoef/d setSamplingPeriod/d", 6},
  {"IntegratorEulerVectorDouble", "derivativesout sin sout", "getSamplingPeriod/ initialize/ popDenomCoef/ popNumCoef/ pushDenomCoef/d pushNumCoef/d setSamplingPeriod/d", 6},
  {"IntegratorEulerVectorMatrix", "derivativesout sin sout", "getSamplingPeriod/ initialize/ popDenomCoef/ popNumCoef/ pushDenomCoef/m pushNumCoef/m setSamplingPeriod/d", 6},
  {"Inverse_of_matrix", "sin sout", "", 6},
  {"Inverse_of_matrixHomo", "sin sout", "", 6},
  {"Inverse_of_matrixrotation", "sin sout", "", 6},
  {"Inverse_of_matrixtwist", "sin sout", "", 6},
  {"Inverse_of_unitquat", "sin sout", "", 6},
  {"JointLimitator", "control controlIN joint lowerJl upperJl widthJl", "", 6},
  {"Kalman", "F H P Q R x_est x_pred y y_pred", "setInitialState/v setInitialVariance/m", 0},
  {"Latch", "out turnOffSout turnOnSout", "turnOff/ turnOn/", 6},
  {"MadgwickAHRS", "accelerometer gyroscope imu_quat", "getBeta/ init/d setBeta/d set_imu_quat/v", 6},
  {"Mailbox<Vector>", "object sout timestamp", "", 6},
  {"MatrixConstant", "sout", "resize/uu set/m", 6},
  {"MatrixDiagonal", "sin sout", "resize/ii", 6},
  {"MatrixHomoToPose", "sin sout", "", 6},
  {"MatrixHomoToPoseQuaternion", "sin sout", "", 6},
  {"MatrixHomoToPoseRollPitchYaw", "sin sout", "", 6},
  {"MatrixHomoToPoseUTheta", "sin sout", "", 6},
  {"MatrixHomoToSE3Vector", "sin sout", "", 6},
  {"MatrixToHomo", "sin sout", "", 4},
  {"MatrixToQuaternion", "sin sout", "", 6},
  {"MatrixToRPY", "sin sout", "", 6},
  {"MatrixToUTheta", "sin sout", "", 6},
  {"MatrixTranspose", "sin sout", "", 6},
  {"Mix_of_vector", "default sout", "addSelec/iii", 6},
  {"MotionPeriod", "motion", "", 6},
  {"Multiply_double_vector", "sin1 sin2 sout", "", 6},
  {"Multiply_matrixHomo_vector", "sin1 sin2 sout", "", 4},
  {"Multiply_matrixTwist_vector", "sin1 sin2 sout", "", 6},
  {"Multiply_matrix_vector", "sin1 sin2 sout", "", 6},
  {"Multiply_of_double", "sin0 sin1 sout", "", 6},
  {"Multiply_of_matrix", "sin0 sin1 sout", "", 6},
  {"Multiply_of_matrixHomo", "sin0 sin1 sout", "", 6},
  {"Multiply_of_matrixrotation", "sin0 sin1 sout", "", 6},
  {"Multiply_of_matrixtwist", "sin0 sin1 sout", "", 6},
  {"Multiply_of_quaternion", "sin0 sin1 sout", "", 6},
  {"Multiply_of_vector", "sin0 sin1 sout", "", 6},
  {"NeckLimitation", "joint jointLimited", "", 0},
  {"Norm_of_vector", "sin sout", "", 6},
  {"OpPointModifier", "jacobian jacobianIN position positionIN", "getEndEffector/ getTransformation/ setEndEffector/b setTransformation/h", 6},
  {"Or", "sout", "", 6},
  {"ParameterServer", "", "displayRobotUtil/ getParameter/s getParameterBool/s getParameterDbl/s getParameterInt/s init/dss init_simple/d setFootFrameName/ss setForceLimitsFromId/dvv setForceNameToForceId/sd setHandFrameName/ss setImuJointName/s setJointLimitsFromId/ddd setJointsUrdfToSot/v setNameToId/sd setParameter/ss setParameterBool/sb setParameterDbl/sd setParameterInt/si setRightFootForceSensorXYZ/v setRightFootSoleXYZ/v", 6},
  {"PeriodicCallEntity", "triger trigerOnce", "", 6},
  {"PoseQuaternionToMatrixHomo", "sin sout", "", 7},
  {"PoseRollPitchYawToMatrixHomo", "sin sout", "", 6},
  {"PoseRollPitchYawToPoseUTheta", "sin sout", "", 6},
  {"PoseUThetaToMatrixHomo", "sin sout", "", 6},
  {"QuaternionToMatrix", "sin sout", "", 6},
  {"QuaternionToRPY", "sin sout", "", 6},
  {"RPYToMatrix", "sin sout", "", 6},
  {"RPYToQuaternion", "sin sout", "", 6},
  {"Reader", "matrix selec vector", "clear/ load/s resize/ii rewind/", 6},
  {"RobotSimu", "attitude attitudeIN control forceLARM forceLLEG forceRARM forceRLEG motorcontrol previousControl ptorque robotState robotVelocity state velocity zmp zmppreviouscontroller", "display/ getTimeStep/ increment/d resize/u set/v setControlInputType/s setPositionBounds/vv setRoot/m setSanityCheck/b setSecondOrderIntegration/ setTimeStep/d setTorqueBounds/vv setVelocity/v setVelocityBounds/vv", 6},
  {"SE3VectorToMatrixHomo", "sin sout", "", 0},
  {"SOT", "control damping proj0 q0", "clear/ display/ down/s enablePostureTaskAcceleration/b getMaxControlIncrementSquaredNorm/ getSize/ isPostureTaskAccelerationEnabled/ list/ push/s remove/s setMaxControlIncrementSquaredNorm/d setSize/u up/s", 6},
  {"Selec_column_of_matrix", "sin sout", "selecCols/i selecRows/ii", 6},
  {"Selec_of_matrix", "sin sout", "selecCols/ii selecRows/ii", 6},
  {"Selec_of_vector", "sin sout", "addSelec/ii selec/ii", 6},
  {"Sequencer", "trigger", "", 6},
  {"SkewSymToVector", "sin sout", "", 6},
  {"SmoothReach", "goal start", "param/id set/vi", 0},
  {"SotJointTrajectoryEntity", "com position seqid trajectoryIN waist zmp", "initTraj/s", 6},
  {"Stack_of_vector", "sin1 sin2 sout", "selec1/ii selec2/ii", 6},
  {"Substract_of_double", "sin1 sin2 sout", "", 6},
  {"Substract_of_matrix", "sin1 sin2 sout", "", 6},
  {"Substract_of_vector", "sin1 sin2 sout", "", 6},
  {"SwitchBoolean", "boolSelection selection sout", "getSignalNumber/ setSignalNumber/i", 6},
  {"SwitchMatrixHomogeneous", "boolSelection selection sout", "getSignalNumber/ setSignalNumber/i", 6},
  {"SwitchVector", "boolSelection selection sout", "getSignalNumber/ setSignalNumber/i", 6},
  {"Task", "controlGain controlSelec damping error errorTimeDerivative jacobian task", "add/s clear/ getWithDerivative/ list/ setWithDerivative/b", 6},
  {"TaskConti", "controlGain controlSelec damping error errorTimeDerivative jacobian q0 task", "add/s clear/ getWithDerivative/ list/ setWithDerivative/b", 6},
  {"TaskPD", "controlGain controlSelec damping error errorDot errorDotOUT errorTimeDerivative jacobian task", "add/s clear/ getWithDerivative/ list/ setBeta/d setWithDerivative/b", 6},
  {"TaskUnilateral", "controlGain controlSelec damping dt error errorTimeDerivative jacobian position referenceInf referenceSup task", "add/s clear/ getWithDerivative/ list/ setWithDerivative/b", 6},
  {"TimeStamp", "synchro synchroDouble time timeDouble", "", 6},
  {"TimerDouble", "clockSout sin sout timer", "", 6},
  {"TimerMatrix", "clockSout sin sout timer", "", 6},
  {"TimerMatrixHomo", "clockSout sin sout timer", "", 6},
  {"TimerVector", "clockSout sin sout timer", "", 6},
  {"UThetaToQuaternion", "sin sout", "", 6},
  {"VectorConstant", "sout", "resize/u set/v", 6},
  {"VectorToRotation", "sin sout", "", 6},
  {"VisualPointProjecter", "depth point2D point3D point3Dgaze transfo", "", 0},
  {"WeightAdd_of_double", "sin1 sin2 sout", "getGain1/ getGain2/ setGain1/d setGain2/d", 6},
  {"WeightAdd_of_matrix", "sin1 sin2 sout", "getGain1/ getGain2/ setGain1/d setGain2/d", 6},
  {"WeightAdd_of_vector", "sin1 sin2 sout", "getGain1/ getGain2/ setGain1/d setGain2/d", 6},
};
