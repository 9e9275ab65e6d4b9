REGISTRY = {
    "P01": ("corr", "nonintegrated"),
    "P02": ("corr", "single"),
    "P03": ("corr", "double"),
    "P04": ("corr", "flatsky"),
    "P07": ("tables", "tables"),
    "P06": ("signal", "projection"),
    "P09": ("background", "expansion"), "P10": ("background", "growth"), "P08": ("covariance", "covariance"),
    "P11": ("integrals", "integrals"), "P12": ("cli", "run"), "P14": ("threads", "threads"), "P15": ("pylayer", "freshness"), "P16": ("settings", "settings"), "P17": ("budget", "budget"), "P18": ("roundtrip", "roundtrip"), "P19": ("outputs", "outputs"), "P20": ("toolbox", "toolbox"),
}

# helpers whose contracts a check uses and discharges on their bodies as well (checks/toolbox.py, checks/fftlog.py)
HELPERS = {
    "P01": ["spline"], "P02": ["spline"], "P03": ["spline"], "P04": ["spline"], "P06": ["spline", "quadrature", "tanhsinh"],
    "P08": ["spline", "order", "quadrature", "tanhsinh", "twobessel"], "P09": ["spline", "quadrature", "tanhsinh"], "P10": ["spline"],
    "P11": ["spline", "arrays", "quadrature", "twofast"],
}
