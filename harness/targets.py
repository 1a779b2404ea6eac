"""What each check's harness consists of: harness sources, variant, and the
library sources it needs (a linking failure falls back to the whole library)."""

BASE = ["error.cpp", "exception.cpp", "log/logger.cpp"]
EXEC = BASE + ["execution.cpp", "algorithm/fixed_step_algorithm.cpp", "slave_simulator.cpp", "timer.cpp", "model_description.cpp",
               "system_structure.cpp", "function/utility.cpp", "function/linear_transformation.cpp", "function/vector_sum.cpp"]


def T(*harness, repo, variant="asan", **kw):
    return dict(harness=list(harness), repo=list(dict.fromkeys(repo)), variant=variant, **kw)


SIM = ["sim.cpp"]
CACHE = ["file_cache.cpp", "uri.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp"]

TARGETS = {
    "C01": T("c01_lifecycle.cpp", *SIM, repo=EXEC),
    "C02": T("c02_transfer.cpp", *SIM, repo=EXEC),
    "C03": T("c03_functions.cpp", *SIM, repo=EXEC),
    "C04": T("c04_initial.cpp", *SIM, repo=EXEC),
    "C05": T("c05_threads.cpp", *SIM, repo=EXEC, variant="tsan"),
    "C06": T("c06_control.cpp", *SIM, repo=EXEC),
    "C07": T("c07_faults.cpp", *SIM, repo=EXEC),
    "C08": T("c08_connect.cpp", *SIM, repo=EXEC),
    "C09": T("c09_reconfigure.cpp", *SIM, repo=EXEC),
    "C10": T("c10_observers.cpp", *SIM, repo=EXEC),
    "C11": T("c11_last_value.cpp", *SIM, repo=EXEC + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp"]),
    "C12": T("c12_time_series.cpp", *SIM, repo=EXEC + ["observer/time_series_observer.cpp"]),
    "C13": T("c13_file_log.cpp", *SIM, repo=EXEC + ["observer/file_observer.cpp"]),
    "C14": T("c14_log_config.cpp", *SIM, repo=EXEC + ["observer/file_observer.cpp"]),
    "C15": T("c15_override.cpp", *SIM, repo=EXEC + ["manipulator/override_manipulator.cpp"]),
    "C16": T("c16_scenario.cpp", *SIM, repo=EXEC + ["manipulator/scenario_manager.cpp", "scenario_parser.cpp"]),
    "C17": T("c17_scenario_parse.cpp", *SIM, repo=EXEC + ["scenario_parser.cpp"]),
    "C18": T("c18_structure.cpp", *SIM, repo=EXEC),
    "C19": T("c19_inject.cpp", *SIM, repo=EXEC),
    "C23": T("c23_uri_parse.cpp", repo=BASE + ["uri.cpp"]),
    "C24": T("c24_uri_resolve.cpp", repo=BASE + ["uri.cpp"]),
    "C25": T("c25_percent.cpp", repo=BASE + ["uri.cpp"]),
    "C27": T("c27_temp_cache.cpp", repo=BASE + CACHE),
    "C28": T("c28_persistent_cache.cpp", repo=BASE + CACHE),
    "C29": T("c29_file_lock.cpp", repo=BASE + ["utility/concurrency.cpp"]),
    "C30": T("c30_zip.cpp", repo=BASE + ["utility/zip.cpp"]),
    "C31": T("c31_temp_dir.cpp", repo=BASE + ["utility/filesystem.cpp", "utility/uuid.cpp"]),
    "C32": T("c32_thread_pool.cpp", repo=BASE, variant="tsan"),
    "C33": T("c33_timer.cpp", *SIM, repo=EXEC),
    "C34": T("c34_concurrent.cpp", *SIM, repo=EXEC + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp", "observer/time_series_observer.cpp", "observer/file_observer.cpp", "manipulator/override_manipulator.cpp"], variant="tsan"),
    "C22": T("c22_resolver.cpp", repo=BASE + CACHE + ["orchestration.cpp"]),
    "C20": T("c20_osp.cpp", repo=EXEC + CACHE + ["orchestration.cpp", "osp_config_parser.cpp"]),
    "C21": T("c21_ssp.cpp", repo=EXEC + CACHE + ["orchestration.cpp", "ssp/ssp_loader.cpp", "ssp/ssp_parser.cpp", "utility/zip.cpp"]),
    "C35": T("c35_fmi.cpp", "fmilib/fake_fmi.cpp", repo=BASE + CACHE + ["utility/zip.cpp", "model_description.cpp", "fmi/importer.cpp", "fmi/glue.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp"], extra=["fmi"]),
    "C36": T("c36_proxy.cpp", repo=BASE + CACHE + ["orchestration.cpp", "proxy/proxy_uri_sub_resolver.cpp", "proxy/remote_fmu.cpp", "proxy/remote_slave.cpp"], extra=["proxy"]),
    "C37": T("c37_algorithm.cpp", *SIM, repo=EXEC),
    "C38": T("c38_simulator.cpp", *SIM, repo=EXEC),
    "C41": T("c41_errors.cpp", *SIM, repo=EXEC + ["utility/zip.cpp"]),
    "C40": T("c40_independence.cpp", *SIM, repo=EXEC + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp", "observer/time_series_observer.cpp", "manipulator/override_manipulator.cpp"]),
    "C39": T("c39_fuzz.cpp", repo=EXEC + CACHE + ["orchestration.cpp", "osp_config_parser.cpp", "ssp/ssp_loader.cpp", "ssp/ssp_parser.cpp", "utility/zip.cpp", "scenario_parser.cpp",
                                                  "observer/file_observer.cpp", "manipulator/scenario_manager.cpp"], variant="fuzz", own_driver=True,
              technique="coverage-guided fuzzing: libFuzzer with structure-aware mutators, sanitizers and consistency oracles"),
    "C26": T("c26_time.cpp", repo=BASE),
}
