#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, tech=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, tech=tech, claimed=claimed, reason=reason))


CORE = "src/sloth/core/"
prop("C01", "Units form a commutative group under multiplication with exact exponents",
     "For all units, the product, quotient and power have the sum, difference and multiple of the dimension exponents, sums and differences exist exactly between units of equal dimension, "
     "and coherence is an equivalence that is true exactly when all seven exponents agree. A unit times a number is a quantity of that value and dimension. No operation changes its operands or a shared predefined unit.",
     ["inputs", "histories"], "all units (integer and dyadic exponents over the seven base dimensions, predefined units, units built from units), all sequences of operations on them",
     "The unit tests build a few units and check one product; the laws quantify over all exponent vectors and all chains of operations, including ones that alias a predefined unit.",
     [CORE + "unit.py", CORE + "template_units.py"],
     [("unit operators and coherence test", CORE + "unit.py: Unit.__add__/__sub__/__mul__/__div__/__pow__/_check_dimensional_coherence"), ("predefined units", CORE + "template_units.py")])
prop("C02", "An expression is accepted exactly when it is dimensionally coherent",
     "Building an expression succeeds exactly when every sum, difference, minimum, maximum and equation joins terms of equal dimension and every exponent is dimensionless; otherwise an error is raised. "
     "The dimension attached to an accepted expression is the one dimensional analysis gives.",
     ["inputs"], "all expression trees over quantities of arbitrary dimensions, well-formed and with one incoherent join at any position",
     "Tests contain a handful of fixed equations; a missed check shows only on particular operators, operand orders and nesting.",
     [CORE + "expression_evaluation.py", CORE + "equation_operators.py", CORE + "unit.py"],
     [("operators check the units of the operands", CORE + "expression_evaluation.py: EquationNode operators"), ("Min, Max, Diff, functions", CORE + "equation_operators.py")])
prop("C03", "Elementary functions accept only dimensionless arguments",
     "Every elementary function (logarithms, exponential, trigonometric, absolute value, square root) refuses an argument with a dimension and anything that is not a number or an expression. "
     "Applied to a plain number or a dimensionless expression it gives a dimensionless expression of the right value that records the objects it uses.",
     ["inputs"], "all eight functions, all expressions of all dimensions",
     "No test applies the functions to dimensional or nested arguments; each function is a separate implementation.",
     [CORE + "equation_operators.py"], [("function wrappers", CORE + "equation_operators.py: Log, Log10, Sqrt, Abs, Exp, Sin, Cos, Tan")])
prop("C04", "An expression has the value its operators say",
     "For all expressions and all values of the quantities, evaluating the expression, evaluating its compiled form and evaluating its displayed form give the value of the mathematical expression written with the operators, "
     "whichever side numbers stand on. A specified parameter or constant contributes the value it had when it was used.",
     ["inputs"], "all expression trees built from operators, functions, Min/Max, powers, numbers on either side; all values of the quantities in the domain of the functions",
     "Tests evaluate few expressions at one point; a wrong operand order, reflected operator or function shows only on particular trees and values.",
     [CORE + "expression_evaluation.py", CORE + "equation_operators.py", CORE + "equation.py"],
     [("operator overloading", CORE + "expression_evaluation.py"), ("evaluation and compilation", CORE + "equation.py: eval, _convertToFunction")])
prop("C05", "An expression records exactly the objects it was built from",
     "For every expression and equation, the objects it records are exactly the quantities that were written into it, each under its name, and the variables it records are exactly those still unspecified. "
     "Terms that cancel or specified values that fold into numbers do not lose an object, and nothing else appears.",
     ["inputs"], "all expression trees and all mixtures of specified and unspecified quantities",
     "The record decides what a problem declares and what a model refuses; tests see it only through a few complete models.",
     [CORE + "expression_evaluation.py", CORE + "equation_operators.py", CORE + "equation.py"],
     [("symbolic and variable maps", CORE + "expression_evaluation.py"), ("sweep of objects", CORE + "equation.py: _sweepObjects")])
prop("C06", "An equation's type is sound",
     "An equation typed linear is affine in its unspecified quantities, an equation containing a derivative is typed differential, and sums, differences and scalings by specified values of quantities are typed linear. "
     "An equation that is not affine and has no derivative is never sent to the linear or differential group.",
     ["inputs"], "all expression trees with and without derivatives and specified quantities",
     "The type chooses the solver; tests reach each type with one or two shapes of equation.",
     [CORE + "expression_evaluation.py", CORE + "equation_operators.py", CORE + "equation.py"],
     [("equation_type propagation", CORE + "expression_evaluation.py, equation_operators.py"), ("type of the equation", CORE + "equation.py: _getTypeFromExpression")])
prop("C07", "Building expressions never changes what already exists",
     "No operation that builds an expression or an equation, whether it succeeds or is refused, changes its operands, earlier expressions sharing them or the quantities in them. "
     "Specifying a quantity changes only that quantity: expressions built before keep their form.",
     ["histories"], "all histories of operations over a pool of shared expressions",
     "Aliasing faults need a particular sequence of operations sharing a node; tests build every expression once.",
     [CORE + "expression_evaluation.py", CORE + "equation_operators.py", CORE + "quantity.py"],
     [("operators build new nodes", CORE + "expression_evaluation.py")])
prop("C08", "Giving a quantity a value is checked, atomic and visible",
     "A value given to a variable, parameter or constant as a number, a number with a unit or a quantity is accepted exactly when its dimension agrees, and then value and specified state are exactly what was given; a refused value changes nothing. "
     "Arithmetic between quantities obeys the arithmetic of values and dimensions and refuses incoherent sums.",
     ["histories", "inputs"], "all sequences of valid and invalid assignments on the three kinds of quantity, all pairs of quantities",
     "Tests perform single valid assignments; what a refused assignment leaves behind, and all unit/number combinations, are not reached.",
     [CORE + "quantity.py", CORE + "parameter.py", CORE + "constant.py", CORE + "variable.py"],
     [("setValue", CORE + "quantity.py, parameter.py, constant.py"), ("quantity arithmetic", CORE + "quantity.py")])
prop("C09", "Every form of an equation denotes the same relation",
     "For an equation given as a residual, as two sides or with a number on one side, the residual equals left minus right at every point, each side evaluates to itself, and interpreted, compiled and converted forms agree. "
     "Evaluation without explicit values uses the current values of the quantities.",
     ["inputs"], "all equations (residual, two-sided, number on the right, with derivatives), all values",
     "Tests evaluate a few residuals once; the other forms and sides are exercised only inside solvers.",
     [CORE + "equation.py", CORE + "expression_evaluation.py"], [("setResidual, eval, _convertToFunction, _convertToResidualForm", CORE + "equation.py")])
prop("C10", "A model accepts only equations over its own declared objects",
     "Creating an equation in a model succeeds exactly when every object it uses was declared in that model, and a refusal changes nothing. "
     "The tables of a model list exactly the declared objects under namespaced names, with the declared attributes and exposure.",
     ["histories"], "all histories of declarations and equations, with foreign objects (specified or not) at any place in the equation",
     "Tests only declare valid models; a leak shows only with a foreign object in a particular place or kind.",
     ["src/sloth/model.py"], [("equation check", "src/sloth/model.py: _checkEquation_"), ("create* functions", "src/sloth/model.py")])

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

DEFAULT_NOTE = ("Search over generated cases against an independent oracle; no absence proof. Trusts the harness's reference "
                "evaluator/model and the generators' preconditions (listed as assumptions in the evidence).")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                     "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["tech"] or "property-based testing (Hypothesis generators, reference-model oracle, shrinking)",
                     "level": "exploration", "level_note": p["note"] or DEFAULT_NOTE} for p in P if p["claimed"]],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


P.sort(key=lambda p: p["id"])
main()
