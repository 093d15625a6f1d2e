#!/opt/venv/bin/python
"""check.py <property id>: decides one property on /repo's current tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import common  # noqa: E402
from common import MachineryError, Report, TIER  # noqa: E402


def formatting_check(report):
    import damage
    import formatting

    def judge(prop, fact, *functions):
        return (damage.judge if "no" in fact else formatting.judge)(prop, fact, *functions)

    runs = formatting.plan(TIER) + formatting.words_plan(TIER) + (damage.plan(TIER) if report.prop in ("C01", "C02", "C03") else [])
    if report.prop != "C05":
        runs += formatting.some_wide(TIER) + formatting.literal_plan(TIER, report.prop == "C04")
    formatting.replay(report, runs, judge, concurrent=5 if TIER == "quick" else 3)
    report.notes["rule"] = (
        "every state TLC reaches is one query; distinct by its whole fact (tokens and layout); none is trivial: "
        "each is a complete SELECT, and all but the 4 base queries hold at least one added feature; some are reported once "
        "per length of a column with which the size of a condition or argument list is next to the limit of a line; literals "
        "of any content grow character by character in places of their own"
    )


def wide_check(report):
    import formatting

    formatting.replay(report, formatting.wide_plan(TIER), concurrent=5 if TIER == "quick" else 3)
    report.notes["rule"] = (
        "every state is a query with a condition or call; each is reported once per length of one of its columns with "
        "which the size of a condition or argument list lies between 86 and 90"
    )


def verdict_check(report):
    import damage
    import formatting
    import verdict

    def judge(prop, fact, *functions):
        return (damage.judge if "no" in fact else verdict.judge)(prop, fact, *functions)

    runs = verdict.plan(TIER, report.prop) + formatting.words_plan(TIER) + (damage.plan(TIER) + formatting.literal_plan(TIER, False) if report.prop == "C15" else [])
    formatting.replay(report, runs, judge, concurrent=5 if TIER == "quick" else 3)
    report.notes["rule"] = (
        "every state TLC reaches is one query; distinct by its whole fact (tokens and expected errors); none is "
        "trivial: each is a complete SELECT over closed or open sources"
    )


def files_check(report):
    import files

    files.check_files(report, TIER)
    report.notes["rule"] = (
        "every state TLC reaches is one Python file with its expected rewriting, report and exit status; distinct by its "
        "whole fact; all but the empty file hold at least one statement"
    )


def objects_check(report):
    import objects

    objects.check(report, TIER)
    report.notes["rule"] = (
        "every state of Verdict is one query, taken through 4 of the histories QueryObject reaches, with related texts"
    )


CHECKS = {p: (formatting_check, "model_checking") for p in ("C01", "C02", "C03", "C04", "C05", "C07")}
CHECKS["C06"] = (wide_check, "model_checking")
CHECKS.update({p: (verdict_check, "model_checking") for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15")})
CHECKS.update({p: (files_check, "model_checking") for p in ("C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24")})
CHECKS["C16"] = (objects_check, "model_checking")


def main():
    prop = sys.argv[1]
    function, level = CHECKS[prop]
    report = Report(prop, TIER, level)
    try:
        import sqlvalidator

        assert os.path.realpath(sqlvalidator.__file__).startswith(os.path.realpath(common.REPO)), sqlvalidator.__file__
        function(report)
        status = report.finish()
    except MachineryError as e:
        print("check error:", e)
        status = 2
    except Exception:
        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    os._exit(status)


if __name__ == "__main__":
    main()
