/* Stands in for the FMI Library, which is not available here: declares the
   part of its interface (types and functions, as of FMI Library 2.x) which
   libcosim uses.  fake.cpp implements it on top of models that the harness
   makes up. */
#ifndef FAKE_FMILIB_H
#define FAKE_FMILIB_H

#include <stddef.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- jm ---- */
#define JM_MAX_ERROR_MESSAGE_SIZE 2000
typedef const char* jm_string;
typedef enum { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 } jm_status_enu_t;
typedef enum {
    jm_log_level_nothing,
    jm_log_level_fatal,
    jm_log_level_error,
    jm_log_level_warning,
    jm_log_level_info,
    jm_log_level_verbose,
    jm_log_level_debug,
    jm_log_level_all
} jm_log_level_enu_t;
typedef struct jm_callbacks jm_callbacks;
typedef void (*jm_logger_f)(jm_callbacks* c, jm_string module, jm_log_level_enu_t level, jm_string message);
struct jm_callbacks {
    void* (*malloc)(size_t);
    void* (*calloc)(size_t, size_t);
    void* (*realloc)(void*, size_t);
    void (*free)(void*);
    jm_logger_f logger;
    jm_log_level_enu_t log_level;
    void* context;
    char errMessageBuffer[JM_MAX_ERROR_MESSAGE_SIZE];
};
jm_string jm_get_last_error(jm_callbacks* cb);

/* ---- common ---- */
typedef struct fmi_xml_context_t fmi_xml_context_t;
typedef fmi_xml_context_t fmi_import_context_t;
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* callbacks);
void fmi_import_free_context(fmi_import_context_t* c);

/* ---- FMI 1 ---- */
typedef void* fmi1_component_t;
typedef unsigned int fmi1_value_reference_t;
typedef double fmi1_real_t;
typedef int fmi1_integer_t;
typedef char fmi1_boolean_t;
typedef const char* fmi1_string_t;
#define fmi1_true 1
#define fmi1_false 0
typedef enum { fmi1_status_ok, fmi1_status_warning, fmi1_status_discard, fmi1_status_error, fmi1_status_fatal, fmi1_status_pending } fmi1_status_t;
typedef enum { fmi1_base_type_real, fmi1_base_type_int, fmi1_base_type_bool, fmi1_base_type_str, fmi1_base_type_enum } fmi1_base_type_enu_t;
typedef enum { fmi1_causality_enu_input, fmi1_causality_enu_output, fmi1_causality_enu_internal, fmi1_causality_enu_none, fmi1_causality_enu_unknown } fmi1_causality_enu_t;
typedef enum { fmi1_variability_enu_constant, fmi1_variability_enu_parameter, fmi1_variability_enu_discrete, fmi1_variability_enu_continuous, fmi1_variability_enu_unknown } fmi1_variability_enu_t;
typedef enum { fmi1_fmu_kind_enu_me = 0, fmi1_fmu_kind_enu_cs_standalone, fmi1_fmu_kind_enu_cs_tool, fmi1_fmu_kind_enu_unknown } fmi1_fmu_kind_enu_t;

typedef void (*fmi1_callback_logger_ft)(fmi1_component_t c, fmi1_string_t instanceName, fmi1_status_t status, fmi1_string_t category, fmi1_string_t message, ...);
typedef void* (*fmi1_callback_allocate_memory_ft)(size_t nobj, size_t size);
typedef void (*fmi1_callback_free_memory_ft)(void* obj);
typedef void (*fmi1_step_finished_ft)(fmi1_component_t c, fmi1_status_t status);
typedef struct {
    fmi1_callback_logger_ft logger;
    fmi1_callback_allocate_memory_ft allocateMemory;
    fmi1_callback_free_memory_ft freeMemory;
    fmi1_step_finished_ft stepFinished;
} fmi1_callback_functions_t;

typedef struct fmi1_import_t fmi1_import_t;
typedef struct fmi1_xml_variable_t fmi1_import_variable_t;
typedef struct fmi1_xml_real_variable_t fmi1_import_real_variable_t;
typedef struct fmi1_xml_integer_variable_t fmi1_import_integer_variable_t;
typedef struct fmi1_xml_bool_variable_t fmi1_import_bool_variable_t;
typedef struct fmi1_xml_string_variable_t fmi1_import_string_variable_t;
typedef struct fmi1_import_variable_list_t fmi1_import_variable_list_t;
typedef struct fmi1_xml_capabilities_t fmi1_import_capabilities_t;

fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t* c, const char* dirPath);
void fmi1_import_free(fmi1_import_t* fmu);
fmi1_fmu_kind_enu_t fmi1_import_get_fmu_kind(fmi1_import_t* fmu);
const char* fmi1_import_get_model_name(fmi1_import_t* fmu);
const char* fmi1_import_get_GUID(fmi1_import_t* fmu);
const char* fmi1_import_get_description(fmi1_import_t* fmu);
const char* fmi1_import_get_author(fmi1_import_t* fmu);
const char* fmi1_import_get_model_version(fmi1_import_t* fmu);
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t* fmu);
void fmi1_import_free_variable_list(fmi1_import_variable_list_t* vl);
unsigned int fmi1_import_get_variable_list_size(fmi1_import_variable_list_t* vl);
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t* vl, unsigned int index);
const char* fmi1_import_get_variable_name(fmi1_import_variable_t* v);
fmi1_value_reference_t fmi1_import_get_variable_vr(fmi1_import_variable_t* v);
fmi1_base_type_enu_t fmi1_import_get_variable_base_type(fmi1_import_variable_t* v);
fmi1_causality_enu_t fmi1_import_get_causality(fmi1_import_variable_t* v);
fmi1_variability_enu_t fmi1_import_get_variability(fmi1_import_variable_t* v);
int fmi1_import_get_variable_has_start(fmi1_import_variable_t* v);
fmi1_import_real_variable_t* fmi1_import_get_variable_as_real(fmi1_import_variable_t* v);
fmi1_import_integer_variable_t* fmi1_import_get_variable_as_integer(fmi1_import_variable_t* v);
fmi1_import_bool_variable_t* fmi1_import_get_variable_as_boolean(fmi1_import_variable_t* v);
fmi1_import_string_variable_t* fmi1_import_get_variable_as_string(fmi1_import_variable_t* v);
fmi1_real_t fmi1_import_get_real_variable_start(fmi1_import_real_variable_t* v);
fmi1_integer_t fmi1_import_get_integer_variable_start(fmi1_import_integer_variable_t* v);
fmi1_boolean_t fmi1_import_get_boolean_variable_start(fmi1_import_bool_variable_t* v);
fmi1_string_t fmi1_import_get_string_variable_start(fmi1_import_string_variable_t* v);
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t* fmu);
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t* c);
jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t* fmu, fmi1_callback_functions_t callBackFunctions, int registerGlobally);
void fmi1_import_destroy_dllfmu(fmi1_import_t* fmu);
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t* fmu, fmi1_string_t instanceName, fmi1_string_t fmuLocation, fmi1_string_t mimeType, fmi1_real_t timeout, fmi1_boolean_t visible, fmi1_boolean_t interactive);
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t* fmu, fmi1_real_t tStart, fmi1_boolean_t StopTimeDefined, fmi1_real_t tStop);
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t* fmu);
void fmi1_import_free_slave_instance(fmi1_import_t* fmu);
fmi1_status_t fmi1_import_do_step(fmi1_import_t* fmu, fmi1_real_t currentCommunicationPoint, fmi1_real_t communicationStepSize, fmi1_boolean_t newStep);
fmi1_status_t fmi1_import_get_real(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, fmi1_real_t value[]);
fmi1_status_t fmi1_import_get_integer(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, fmi1_integer_t value[]);
fmi1_status_t fmi1_import_get_boolean(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, fmi1_boolean_t value[]);
fmi1_status_t fmi1_import_get_string(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, fmi1_string_t value[]);
fmi1_status_t fmi1_import_set_real(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, const fmi1_real_t value[]);
fmi1_status_t fmi1_import_set_integer(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, const fmi1_integer_t value[]);
fmi1_status_t fmi1_import_set_boolean(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, const fmi1_boolean_t value[]);
fmi1_status_t fmi1_import_set_string(fmi1_import_t* fmu, const fmi1_value_reference_t vr[], size_t nvr, const fmi1_string_t value[]);

/* ---- FMI 2 ---- */
typedef void* fmi2_component_t;
typedef void* fmi2_component_environment_t;
typedef unsigned int fmi2_value_reference_t;
typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
typedef const char* fmi2_string_t;
#define fmi2_true 1
#define fmi2_false 0
typedef enum { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending } fmi2_status_t;
typedef enum { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum } fmi2_base_type_enu_t;
typedef enum { fmi2_causality_enu_parameter, fmi2_causality_enu_calculated_parameter, fmi2_causality_enu_input, fmi2_causality_enu_output, fmi2_causality_enu_local, fmi2_causality_enu_independent, fmi2_causality_enu_unknown } fmi2_causality_enu_t;
typedef enum { fmi2_variability_enu_constant, fmi2_variability_enu_fixed, fmi2_variability_enu_tunable, fmi2_variability_enu_discrete, fmi2_variability_enu_continuous, fmi2_variability_enu_unknown } fmi2_variability_enu_t;
typedef enum { fmi2_fmu_kind_unknown = 0, fmi2_fmu_kind_me = 1, fmi2_fmu_kind_cs = 2, fmi2_fmu_kind_me_and_cs = 3 } fmi2_fmu_kind_enu_t;
typedef enum { fmi2_model_exchange, fmi2_cosimulation } fmi2_type_t;
typedef enum {
    fmi2_me_needsExecutionTool,
    fmi2_me_completedIntegratorStepNotNeeded,
    fmi2_me_canBeInstantiatedOnlyOncePerProcess,
    fmi2_me_canNotUseMemoryManagementFunctions,
    fmi2_me_canGetAndSetFMUstate,
    fmi2_me_canSerializeFMUstate,
    fmi2_me_providesDirectionalDerivatives,
    fmi2_me_completedEventIterationIsProvided,
    fmi2_cs_needsExecutionTool,
    fmi2_cs_canHandleVariableCommunicationStepSize,
    fmi2_cs_canInterpolateInputs,
    fmi2_cs_maxOutputDerivativeOrder,
    fmi2_cs_canRunAsynchronuously,
    fmi2_cs_canSignalEvents,
    fmi2_cs_canBeInstantiatedOnlyOncePerProcess,
    fmi2_cs_canNotUseMemoryManagementFunctions,
    fmi2_cs_canGetAndSetFMUstate,
    fmi2_cs_canSerializeFMUstate,
    fmi2_cs_providesDirectionalDerivatives,
    fmi2_capabilities_Num
} fmi2_capabilities_enu_t;

typedef void (*fmi2_callback_logger_ft)(fmi2_component_environment_t env, fmi2_string_t instanceName, fmi2_status_t status, fmi2_string_t category, fmi2_string_t message, ...);
typedef void* (*fmi2_callback_allocate_memory_ft)(size_t nobj, size_t size);
typedef void (*fmi2_callback_free_memory_ft)(void* obj);
typedef void (*fmi2_step_finished_ft)(fmi2_component_environment_t env, fmi2_status_t status);
typedef struct {
    fmi2_callback_logger_ft logger;
    fmi2_callback_allocate_memory_ft allocateMemory;
    fmi2_callback_free_memory_ft freeMemory;
    fmi2_step_finished_ft stepFinished;
    fmi2_component_environment_t componentEnvironment;
} fmi2_callback_functions_t;

typedef struct fmi2_import_t fmi2_import_t;
typedef struct fmi2_xml_callbacks_t fmi2_xml_callbacks_t;
typedef struct fmi2_xml_variable_t fmi2_import_variable_t;
typedef struct fmi2_xml_real_variable_t fmi2_import_real_variable_t;
typedef struct fmi2_xml_integer_variable_t fmi2_import_integer_variable_t;
typedef struct fmi2_xml_bool_variable_t fmi2_import_bool_variable_t;
typedef struct fmi2_xml_string_variable_t fmi2_import_string_variable_t;
typedef struct fmi2_import_variable_list_t fmi2_import_variable_list_t;

fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* dirPath, fmi2_xml_callbacks_t* xml_callbacks);
void fmi2_import_free(fmi2_import_t* fmu);
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* fmu);
const char* fmi2_import_get_model_name(fmi2_import_t* fmu);
const char* fmi2_import_get_GUID(fmi2_import_t* fmu);
const char* fmi2_import_get_description(fmi2_import_t* fmu);
const char* fmi2_import_get_author(fmi2_import_t* fmu);
const char* fmi2_import_get_model_version(fmi2_import_t* fmu);
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* fmu, int sortOrder);
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* vl);
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* vl);
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* vl, size_t index);
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* v);
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v);
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v);
fmi2_causality_enu_t fmi2_import_get_causality(fmi2_import_variable_t* v);
fmi2_variability_enu_t fmi2_import_get_variability(fmi2_import_variable_t* v);
int fmi2_import_get_variable_has_start(fmi2_import_variable_t* v);
fmi2_import_real_variable_t* fmi2_import_get_variable_as_real(fmi2_import_variable_t* v);
fmi2_import_integer_variable_t* fmi2_import_get_variable_as_integer(fmi2_import_variable_t* v);
fmi2_import_bool_variable_t* fmi2_import_get_variable_as_boolean(fmi2_import_variable_t* v);
fmi2_import_string_variable_t* fmi2_import_get_variable_as_string(fmi2_import_variable_t* v);
fmi2_real_t fmi2_import_get_real_variable_start(fmi2_import_real_variable_t* v);
fmi2_integer_t fmi2_import_get_integer_variable_start(fmi2_import_integer_variable_t* v);
fmi2_boolean_t fmi2_import_get_boolean_variable_start(fmi2_import_bool_variable_t* v);
fmi2_string_t fmi2_import_get_string_variable_start(fmi2_import_string_variable_t* v);
unsigned int fmi2_import_get_capability(fmi2_import_t* fmu, fmi2_capabilities_enu_t id);
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* fmu, fmi2_fmu_kind_enu_t fmuKind, const fmi2_callback_functions_t* callBackFunctions);
void fmi2_import_destroy_dllfmu(fmi2_import_t* fmu);
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* fmu, fmi2_string_t instanceName, fmi2_type_t fmuType, fmi2_string_t fmuResourceLocation, fmi2_boolean_t visible);
void fmi2_import_free_instance(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* fmu, fmi2_boolean_t tolerance_defined, fmi2_real_t tolerance, fmi2_real_t start_time, fmi2_boolean_t stop_time_defined, fmi2_real_t stop_time);
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_terminate(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_do_step(fmi2_import_t* fmu, fmi2_real_t currentCommunicationPoint, fmi2_real_t communicationStepSize, fmi2_boolean_t newStep);
fmi2_status_t fmi2_import_get_real(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_real_t value[]);
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_integer_t value[]);
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_boolean_t value[]);
fmi2_status_t fmi2_import_get_string(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_string_t value[]);
fmi2_status_t fmi2_import_set_real(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_real_t value[]);
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_integer_t value[]);
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_boolean_t value[]);
fmi2_status_t fmi2_import_set_string(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_string_t value[]);

#ifdef __cplusplus
}
#endif
#endif
