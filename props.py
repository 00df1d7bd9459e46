PROPS = {
    "C33": {"sources": ["C33_cmdreports.cpp"], "opt": "-O1"},
    "C29": {"sources": ["C29_extensions.cpp"], "opt": "-O1"},
    "C19": {"sources": ["C19_filters.cpp"], "opt": "-O1"},
    "C32": {"sources": ["C32_pevents.cpp"], "opt": "-O1"},
    "C31": {"sources": ["C31_malformed.cpp"], "opt": "-O1"},
    "C34": {"sources": ["C34_lifecycle.cpp"], "opt": "-O1"},
    "C27": {"sources": ["C27_observe.cpp"], "opt": "-O1"},
    "C26": {"sources": ["C26_pipeline.cpp"], "opt": "-O1", "extra_dirs": ["helios/pipeViewer/pipe_view/transactiondb/src"]},
    "C30": {"sources": ["C30_states.cpp"], "opt": "-O1"},
    "C28": {"sources": ["C28_cache.cpp"], "opt": "-O1"},
    "C25": {"sources": ["C25_triggers.cpp"], "opt": "-O1"},
    "C24": {"sources": ["C24_reports.cpp"], "opt": "-O1"},
    "C23": {"sources": ["C23_expressions.cpp"], "opt": "-O1"},
    "C22": {"sources": ["C22_stats.cpp"], "opt": "-O1"},
    "C21": {"sources": ["C21_logging.cpp"], "opt": "-O1"},
    "C20": {"sources": ["C20_notifications.cpp"], "opt": "-O1"},
    "C18": {"sources": ["C18_config.cpp"], "opt": "-O1"},
    "C17": {"sources": ["C17_params.cpp"], "opt": "-O1"},
    "C16": {"sources": ["C16_tree.cpp"], "opt": "-O1"},
    "C15": {"sources": ["C15_checkpoint.cpp"], "opt": "-O1"},
    "C14": {"sources": ["C14_registers.cpp"], "opt": "-O1"},
    "C13": {"sources": ["C13_memory.cpp"], "opt": "-O1"},
    "C12": {"sources": ["C12_numeric.cpp"], "opt": "-O1"},
    "C11": {"sources": ["C11_memory.cpp"], "opt": "-O1"},
    "C10": {"sources": ["C10_scoreboard.cpp"], "opt": "-O1"},
    "C09": {"sources": ["C09_pipes.cpp"], "opt": "-O1"},
    "C08": {"sources": ["C08_containers.cpp"], "opt": "-O1"},
    "C07": {"sources": ["C07_syncport.cpp"], "opt": "-O1"},
    "C06": {"sources": ["C06_ports.cpp"], "opt": "-O1"},
    "C05": {"sources": ["C05_async.cpp"], "opt": "-O1", "flavors": ["asan", "tsan"]},
    "C04": {"sources": ["C04_clock.cpp"], "opt": "-O1"},
    "C03": {"sources": ["C03_events.cpp"], "opt": "-O1"},
    "C02": {"sources": ["C02_precedence.cpp"], "opt": "-O1"},
    "C01": {"sources": ["C01_scheduler.cpp"], "opt": "-O1"},
}
NA = {}
