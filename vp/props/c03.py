"""C03: configuration processing is pure, repeatable and idempotent (stateful histories)."""
import copy

from hypothesis import strategies as st

from vp import conf
from vp.core import Outcome, Sub, Violation, expect, quiet, sut

with sut("importing mimosa"):
    from mimosa import MIMOSA
    from mimosa.common.config.parseconfig import check_params, load_params, parse_param_values

SMALL = {"time": {"start": 2020, "end": 2030, "dt": 5}, "regions": {"CAN": None, "USA": None}}


def load_and_judge(user, how):
    before = copy.deepcopy(user)
    with sut("loading a valid configuration"):
        got = check_params(user) if how != "default" else load_params()
    expect(conf.same(before, user), f"loading modified the caller's dictionary: {conf.diff(before, user)}")
    d = conf.diff(conf.expected(user), got)
    expect(d is None, f"loading gave a result that depends on earlier actions: {d}")
    return got


def mutate(d, path, how, value):
    """Change something inside a loaded configuration, deep inside its containers where there are any."""
    node = conf.get(d, path)
    parent = conf.get(d, path[:-1])
    if how == "replace" or not isinstance(node, (dict, list)):
        parent[path[-1]] = value
    elif how == "clear":
        node.clear()
    elif isinstance(node, list):
        for x in node:
            if isinstance(x, dict):
                x["changed"] = value
        node.append(value)
    else:
        for k in list(node):
            if isinstance(node[k], dict):
                node[k]["changed"] = value
                for k2 in list(node[k]):
                    if isinstance(node[k][k2], dict):
                        node[k][k2]["changed"] = value
            elif how == "deep":
                node[k] = value
        node["changed"] = value


def run(case):
    results = []  # (user, original copy of user, loaded)
    kinds = set()
    for op in case["ops"]:
        kinds.add(op[0])
        if op[0] == "load":
            user = conf.nest(op[1])
            loaded = load_and_judge(user, "user")
            results.append((user, copy.deepcopy(user), loaded))
        elif op[0] == "default":
            results.append(({}, {}, load_and_judge({}, "default")))
        elif op[0] == "bad":
            user = {"time": {"start": 5, "foo": 2}}
            before = copy.deepcopy(user)
            try:
                with quiet():
                    check_params(user)
            except Exception:
                pass
            else:
                raise Violation("accepted an invalid configuration")
            expect(conf.same(before, user), "a rejected configuration was modified")
        elif op[0] == "reload" and results:
            user, orig, loaded = results[op[1] % len(results)]
            snap = copy.deepcopy(loaded)
            with sut("loading an already loaded configuration"):
                again = check_params(loaded)
            d = conf.diff(snap, again)
            expect(d is None, f"loading an already loaded configuration changes it: {d}")
            expect(conf.same(snap, loaded), "loading modified the (loaded) configuration it was given")
            with sut("loading the same settings again"):
                again = check_params(user)
            expect(conf.same(user, orig), "the caller's dictionary changed")
            d = conf.diff(conf.expected(orig), again)
            expect(d is None, f"loading the same settings again gives another result: {d}")
        elif op[0] == "mutate" and results:
            i = op[1] % len(results)
            user, orig, loaded = results.pop(i)
            mutate(loaded, tuple(op[2]), op[3], op[4])
            expect(conf.same(user, orig), f"changing a loaded configuration changed the caller's settings: {conf.diff(orig, user)}")
            load_and_judge(copy.deepcopy(orig), "user")
        elif op[0] == "resolve" and results:
            user, orig, loaded = results.pop(op[1] % len(results))
            with sut("resolving references"):
                one = parse_param_values(loaded)
                snap = copy.deepcopy(one)
                two = parse_param_values(one)
                three = check_params(copy.deepcopy(snap))
            expect(conf.same(snap, two), "resolving references twice changes the configuration")
            expect(conf.same(snap, three), f"loading the resolved configuration changes it: {conf.diff(snap, three)}")
            expect(conf.same(user, orig), f"resolving references changed the caller's settings: {conf.diff(orig, user)}")
        elif op[0] == "build":
            user = copy.deepcopy(SMALL)
            user["SSP"] = op[1]
            user["simulation"] = {"constraint_variables": {"temperature": {"2020": {"Global": "a {SSP} b"}}}}
            user["regions"]["CAN"] = {"MAC": {"note": "x {SSP}"}}
            before = copy.deepcopy(user)
            with sut("building a model"):
                model = MIMOSA(user)
            expect(conf.same(before, user), f"building a model modified the caller's dictionary: {conf.diff(before, user)}")
            params = copy.deepcopy(model.params)
            with sut("loading the configuration of a model"):
                again = check_params(model.params)
            expect(conf.same(params, again), f"loading the settings of a model changes them: {conf.diff(params, again)}")
            model.params["regions"]["CAN"]["MAC"]["note"] = 5
            model.params["time"]["start"] = 1
            expect(conf.same(before, user), "changing a model's settings changed the caller's dictionary")
    # nothing leaked into defaults
    load_and_judge({}, "default")
    for user, orig, loaded in results:
        expect(conf.same(user, orig), "the caller's dictionary changed")
        d = conf.diff(conf.expected(orig), loaded)
        expect(d is None, f"a loaded configuration changed without being touched: {d}")
    return Outcome(len(kinds) >= 3, sorted(kinds))


idx = st.integers(0, 5)
op = st.one_of(
    st.tuples(st.just("load"), conf.settings_list(6)),
    st.tuples(st.just("load"), conf.settings_list(6)),
    st.tuples(st.just("default")),
    st.tuples(st.just("bad")),
    st.tuples(st.just("reload"), idx),
    st.tuples(st.just("mutate"), idx, st.sampled_from(conf.ALL_PATHS).map(list), st.sampled_from(["replace", "clear", "inside", "deep"]), st.sampled_from([1, "x"])),
    st.tuples(st.just("mutate"), idx, st.sampled_from([["regions"], ["regionsmappings"], ["regional_parameter_files"], ["input", "variables", "GDP"], ["simulation", "constraint_variables"], ["simulation", "custom_mapping"]]), st.sampled_from(["clear", "inside", "deep"]), st.sampled_from([1, "x"])),
    st.tuples(st.just("resolve"), idx),
    st.tuples(st.just("build"), st.sampled_from(["SSP1", "SSP3"])),
).map(list)

SUBS = [
    Sub("history", st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=9)}), run, 240, 6000,
        "sequences of loads, rejected loads, reloads, edits of loaded results, reference resolution and model constructions, each in a fresh process; "
        "non-trivial with at least three kinds of operation", isolate=True),
]
