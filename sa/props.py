"""Which entries, scenarios and rule decide each property."""

from . import cbounds, csrc, cxx


class P:
    def __init__(self, explain, select=lambda e: not e.rejects, dtypes=lambda e: ["float32"], observe=True, inputs=False, limit=0, floor=1, decides=(), extra=None, io=False, perturb=False, sized=False):
        self.explain, self.select, self.dtypes, self.observe, self.inputs, self.limit, self.floor, self.decides, self.extra, self.io, self.perturb, self.sized = \
            explain, select, dtypes, observe, inputs, limit, floor, decides, extra, io, perturb, sized


ASSUMPTIONS = [
    "the transfer functions written for torch, numpy and the C++ binding describe those libraries",
    "generic inputs: symbolic sizes are distinct and not 0 or 1, batches are not empty",
    "unknown results are never judged; they are counted as undecided",
]
WARM = ["pytorch3d.structures", "pytorch3d.ops", "pytorch3d.loss", "pytorch3d.transforms", "pytorch3d.renderer", "pytorch3d.io"]

CXX = "The C++ sources of the extension are parsed and analysed by data flow and on symbolic sizes. "
BASE = "Abstract interpretation of the Python source in /repo, every API entry on symbolic tensors (shape polynomials, dtype, device, storage aliases, data and gradient dependences) for every listed option combination. "
PROPS = {
    "C01": P(BASE + CXX + "Rule: no write event reaches caller-owned storage or containers, and every observable accessor of a caller's object has the same facts before and after the call.",
             observe=False, inputs=True, floor=1800, decides=("calls", "cpp_inputs"), extra=cxx.c01),
    "C02": P(BASE + "Rule: results of copying operations have storage disjoint from the inputs, detached results have no gradient dependence.",
             select=lambda e: bool(e.opts.get("noalias") or e.opts.get("nograd")), floor=1600, decides=("values",)),
    "C03": P(BASE + "Rule: after an update every accessor depends on everything it has to, for each combination of caches computed before the update.",
             select=lambda e: bool(e.opts.get("update")), floor=4400, decides=("facts",)),
    "C04": P(BASE + "Rule: each accessor of an indexed, split, joined, extended or copied batch depends on the attribute of the source it stands for.",
             select=lambda e: bool(e.opts.get("carry")), floor=8000, decides=("facts",)),
    "C05": P(BASE + "Rule: no operation combines tensors of two devices and every result is on the device of the inputs (or the one asked for).", sized=True, floor=11500, decides=("values",)),
    "C06": P(BASE + "Rule: with float64 inputs no operation mixes float precisions and every result has the contract dtype.",
             select=lambda e: not e.rejects and e.f64, dtypes=lambda e: ["float64"], sized=True, floor=7700, decides=("values",)),
    "C07": P(BASE + CXX + "Rule: every differentiable input of an operation reaches the results through differentiable operations only.", floor=17500, decides=("paths", "cpp_gradients"), extra=cxx.c07),
    "C08": P(BASE + CXX + "Rule: every argument, option and per-call override reaches the results it has to influence.", floor=35000, decides=("facts", "cpp_dependences"), extra=cxx.c08),
    "C09": P(BASE + CXX + "Rule: every malformed input (wrong rank, wrong fixed or mismatched size, wrong dtype, unknown option) that the reviewed tree rejects with an explicit exception is still rejected on every path with that type, and every input whose values are checked is still checked.", select=lambda e: True, observe=False, floor=10700, decides=("malformed_inputs", "value_checks", "cpp_malformed"), extra=cxx.c09, perturb=True),
    "C10": P(BASE + CXX + "Rule: the symbolic result shapes equal the contract and no operation has a definite shape error.", sized=True, floor=11700, decides=("shapes", "cpp_results"), extra=cxx.c10),
    "C11": P(BASE + CXX + "Rule: no random number is drawn outside the operations documented as random, and no deterministic result of a random operation depends on them.", floor=1800, decides=("calls", "values"), extra=cxx.c11),
    "C12": P(BASE + "Rule: files are opened through the path manager the caller passed, every opened file is closed on every normal and exceptional way out, streams of the caller stay open, writes fit the mode, and malformed input is rejected before the output file is truncated.",
             select=lambda e: e.name.startswith("io."), observe=False, io=True, perturb=True, floor=1600, decides=("files", "accesses", "writes")),
    "C13": P(BASE + CXX + "Rule: arguments of each C++ call match the signature parsed from the bindings in number, type, dtype, rank and role, and autograd backward functions return one gradient of the right shape per input.",
             observe=False, floor=6400, decides=("call_arguments", "autograd_functions", "cpp_calls"), extra=cxx.c13),
    "C16": P(BASE + "Rule: no call leaves grad mode, default dtype, the random seed or a module's training mode changed.", observe=False, floor=1650, decides=("calls",)),
    "C17": P(BASE + "Rule: symbolic strides are tracked through every operation (caller tensors have arbitrary strides) and no view merges axes whose strides do not allow it; tensors reach raw C++ pointers only when contiguous.", floor=10800, decides=("views", "cpp_tensor_parameters"), extra=csrc.c17),
    "C18": P("The CPU operators of the extension are parsed from /repo's C++ sources and interpreted on symbolic sizes and index values with linear relations. Rule: at each access of an accessor, pointer or container the index is inside for every size, index value in its documented range and number of threads; ranges given to threads are disjoint and complete; results are written from end to end; batch ends are followed past empty elements. A violation needs concrete sizes that satisfy all conditions on the path.",
             select=None, floor=450, decides=("cpp_obligations",), extra=cbounds.c18),
}
