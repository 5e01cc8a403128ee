PROPERTY = 'P21'
NEEDS = """Size ratios other than 1 in the near field."""
BREAKS = """One coefficient of the YA near-field expansion is not symmetric in the two spheres any more."""
EDITS = [('find_resistance_scalars/functions_nearfield.py', '    return 2/375*(16-45*lam+58*lam**2-45*lam**3+16*lam**4)*(1+lam)**-3', '    return 2/375*(16-45*lam+58*lam**2-45*lam**2+16*lam**4)*(1+lam)**-3')]
DEMO = r"""
sys.path.insert(0, FRS)
import functions_nearfield as n
xi, lam = 1e-3, 0.5
close(n.Y12A(xi, lam), n.Y12A(xi, 1/lam)*lam, 'exchange of the two spheres', 1e-4)
"""
