/* Stand-in for Simulink's simulink.c, included at the end of an S-function: exports its static methods. */
#define MOCK_CAT2(a, b) a##b
#define MOCK_CAT(a, b) MOCK_CAT2(a, b)
#define MOCK_STR2(a) #a
#define MOCK_STR(a) MOCK_STR2(a)
mock_sfun MOCK_CAT(mock_, S_FUNCTION_NAME) = { MOCK_STR(S_FUNCTION_NAME), S_FUNCTION_LEVEL, mdlInitializeSizes, mdlInitializeSampleTimes,
#ifdef MDL_START
    mdlStart,
#else
    0,
#endif
    mdlOutputs, mdlTerminate,
#ifdef MDL_SET_INPUT_PORT_DIMENSION_INFO
    mdlSetInputPortDimensionInfo,
#else
    0,
#endif
#ifdef MDL_SET_OUTPUT_PORT_DIMENSION_INFO
    mdlSetOutputPortDimensionInfo,
#else
    0,
#endif
};
