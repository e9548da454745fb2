import c_args
import c_checker
import c_cli
import c_clock
import c_crash
import c_grammar
import c_module
import c_overlap
import c_session
import c_wire

MC = "model_checking"
CHECKS = {
    "C01": (c_wire.wire, MC),
    "C02": (c_wire.wire, MC),
    "C03": (c_wire.wire, MC),
    "C04": (c_checker.verdict, MC),
    "C05": (c_checker.verdict, MC),
    "C06": (c_module.same, MC),
    "C07": (c_grammar.language, MC),
    "C08": (c_grammar.language, MC),
    "C09": (c_grammar.language, MC),
    "C10": (c_module.modules, MC),
    "C11": (c_module.modules, MC),
    "C12": (c_cli.cli, MC),
    "C13": (c_cli.cli, MC),
    "C14": (c_cli.cli, MC),
    "C15": (c_wire.wire, MC),
    "C16": (c_session.session, MC),
    "C17": (c_wire.sessions, MC),
    "C18": (c_checker.resolved, MC),
    "C19": (c_cli.cli, MC),
    "C20": (c_overlap.overlap, MC),
    "C21": (c_clock.clock, MC),
    "C22": (c_crash.crash, MC),
    "C23": (c_args.args, MC),
}
