"""Setup: nothing is built ahead; makes sure the solver answers."""
import z3
x = z3.Int('x')
s = z3.Solver()
s.add(x > 3, x < 5)
assert s.check() == z3.sat and s.model()[x].as_long() == 4
s.add(x != 4)
assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'ok')
