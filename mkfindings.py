#!/usr/bin/env python3
"known_findings.json from the repairs made (open findings are listed in FINDINGS)"
import json
import os
ROOT = os.path.dirname(os.path.abspath(__file__))
FINDINGS = []       # {property, harness, label, when, what}
FIXED = """
308bd65 N01 P**0 was not 1 (an empty nomial), and powers of a nomial printed a wrong exponent
06407e6 N02 a sum whose terms all cancel became an empty nomial instead of zero
40cc239 N01 0/monomial raised AttributeError
44e029e U01 unit conversions were cached under id()s of temporaries, so results depended on earlier conversions
4743ad0 C01 posynomial <= 1 whose constant part reaches 1 after substitution divided by zero or flipped sign
5815486 A01 zeros in an array contributed spurious terms to its sum
b0d4f85 K01 deleting one KeyDict entry disturbed others (shared array, alias maps)
fbf03e7 K01 vector values were stored as float32 or truncated to integers
81f5c24 K01 writing into a KeyDict wrote into its copies
e89ea11 S01 sweeps were recognised by identity of the string 'sweep', so unpickled/constructed markers were missed
35a6e9f K02 nomials pickled in one process had wrong hashes in another
55fa509 K02 element x[0] of a vector was equal to a scalar named 'x[0]'
8461b9a S01 vector values mixing numbers, quantities, functions and sweeps were rejected or misread
60e6d99 S01 sweeping one element of a vector lost its other elements' values
726c683 U01 swept quantities were not converted to their variable's units
0686ac1 W01 an element could not be swept over a numpy array
3837d70 K01 models with sweeps of whole vectors could not be created or overwritten
b13afae K01 writing an element changed the array that the KeyDict had been given
f8c7732 K01 numbers could not replace functions or sweeps in a vector's values
e51969a C01 dividing a posynomial by its monomial bound overwrote terms with colliding exponents
05ae5e8 C01 substituting zero into a denominator made coefficients nan
88842db C01 constraints whose every term is zeroed by substitution raised ZeroDivisionError
42f0651 C04 relaxed vector constants lost their values (elements created apart did not know their vector)
d266c9b C04 ConstraintsRelaxed missed constraints of nested, vector and signomial sets
32d7c46 C04 debug failed on models with nothing to relax; excluded linked constants lost their values
49273ab C03 nomials among the constraints were accepted silently instead of refused by name
fb2ea62 G05 sensitivities of costs whose terms merge or vanish on substitution went to the wrong variables
64c01ae G05 sensitivities of linked variables reached only some of their inputs
49ec18d G05 links to links were evaluated in arbitrary order; formerly linked variables kept no sensitivity of their own
4b57120 G05 variables on both sides of a signomial constraint were counted twice in sensitivities
ec77223 G05 a constraint's sensitivities remembered constants of earlier substitutions
17c6db9 G02 a monomial equality of a single variable was not taken to bound it
fbe9f17 G07 one solve's solver options carried over to later solves
2f9ed75 G04 matrix entries zeroed in place reached MOSEK as duplicates
fc0fbba G06 dual values of zero made the dual cost undefined (0*log 0)
f336519 G07 a program solved again could return its previous result
51a0b99 G07 duals of the wrong length were partly used
53c1321 G07 a failed solve whose debugging finds nothing lost its error
b606c63 G06 constraints of undefined (nan) value passed verification
a997f54 G07 solvers raising a bare Infeasible ended in an unrelated error
2147702 C02 signomial constraints infeasible at one approximation point could not be declared or solved
bcbd229 Q01 sequential steps reused stale exponents/rows when terms vanished or appeared at the previous solution
90e1fbd Q02 sequential solves continued on a cost rise at low verbosity or scale, and could run past their iteration limit
a9a71fe Q02 a removed slack stayed in the cost's sensitivities
296bad1 W03 sweeps and autosweeps left changed substitutions behind
69ab21b W02 autosweep's bounds failed where the log-cost's lower bound is zero
d382c08 W02 variables with cancelling sensitivities were dropped from the cost's sensitivities (KeyError in autosweep)
6a6dd28 W01 every program of a sweep shared the last point's constants
d8bd7c4 D01 entries present in only some points of a sweep lost their alignment; atindex returned other points' data
0a50aba U01 values of vectorized variables were transposed or lost their units
4a57238 E01 leaving a nested SignomialsEnabled disabled the outer one
66d89d1 E01 relaxing or bounding inside a model's setup changed variables' identities
e1f2049 D01 elements of vector variables could not be looked up in swept solutions
c8ba050 D01 almost_equal and diff ignored or failed on vectors, sweeps and computed variables
fac9c7b D01 comparing with a sweep misaligned vectors; printing a table blanked repeated values in the solution
b05916a X01 docstring tables declared variables from other lines, lost values and mangled quotes
594be8f X02 missing bounds went unreported when the docstring declares variables outside of the model
bb40d23 R01 printed products, powers, sums of parts and slices lost their parentheses, e.g. ((a+b)*(c+d))**2
18146ba R01 elements of same-named vectors of different models printed alike
0a6210d R01 latex dropped coefficients near one (1.047 x printed as x)
0d37f88 L01 links returning quantities (which cannot be differentiated) raised or lost their units
fa3ee7a L01 variables evaluated after solving from each other raised KeyError depending on hash order
0da23f3 U01 adding nomials in dimensionless units (e.g. percent, inch/meter) to ones without raised DimensionalityError
e0d6fbd N04 the derivative of a nomial in ft by a variable in cm lost the factor between them; zero derivatives had no units
0f5d64d A01 the sum of an array starting with a Quantity had units that other nomials could not be combined with
a58373c C05 several Bounded sets with the same bounds: the report of the last one replaced the others'
6721dc0 C04 ConstantsRelaxed of constants with equal names and different units: one lost its relaxation constraints
29b4c55 C04 ConstantsRelaxed of constants with equal names and different units: they shared one relaxation variable
86d2225 C02 a signomial inequality that cannot hold raised AttributeError instead of infeasibility
ee161c6 P01 a model named A had every A cut out of its constraints' variables (Area -> rea) in constraint tables
2d982a5 P01 three-dimensional arrays wider than a line were printed with their dimensions mixed up
0a4e6bd P01 asking a table or key set for a variable that isn't there made it appear to be there afterwards
fb8c4e2 P01 diff never listed selected variables that only its argument has
61c1183 V01 drawing a variable's Sankey diagram crashed if any constraint wasn't in the program
1e744cd V01 a second Sankey diagram also held the first's links
a184971 V01 fixed variables of labeled submodels were missing from Sankey diagrams
124aed9 P01 asking a summary or table for the top 0 sensitivities printed all of them
a97ff87 V02 a nomial, a name alone or "cost" alone could not be plotted over a sweep
0c07342 V02 plotting an autosweep put the cost posynomial into the caller's list in place of "cost"
80c8772 V02 plot_1dsweepgrid failed for swept names, costs, and swept variables without a value next to ones with one
669ff9e V02 compare() split a name as long as its list of models into letters
1d896e8 A01 quantities lost their units in products, quotients and comparisons with arrays
c9a5ca4 U01 q*x, q+x and q >= x with a quantity on the left failed, or ignored the units q adds (x >= 50*percent*y was 50*y)
0e9133e L01 a linked function of quantities, e.g. lambda c: 2*c(h), was taken without its units: f [m] of h = 2 ft was 4 m
1600ba6 C04 ConstantsRelaxed and Model.debug failed with a KeyError on links to links, and reported links' values in the units they were given in
6a04c91 R01 constraints in plain lists or dictionaries were printed in LaTeX as their Python representation
"""


def main():
    fixed = []
    for line in FIXED.strip().splitlines():
        commit, prop, what = line.split(" ", 2)
        fixed.append("fixed: property=%s %s %s" % (prop, commit, what))
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
