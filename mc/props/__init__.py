"""The property modules, by property id."""

INDEX = {
    "V01": "operators",
    "V02": "evalorder",
    "V03": "collections_",
    "V04": "branches",
    "V05": "exceptions",
    "V06": "withs",
    "V07": "binding",
    "V08": "functions",
    "V09": "scopes",
    "V10": "generators",
    "V11": "classes",
    "V12": "formatting",
    "V13": "printing",
    "V14": "wide",
    "V16": "tracing",
    "V17": "control",
    "V18": "coexist",
    "V19": "dynamic",
    "V20": "driver",
    "V21": "logged",
    "V22": "tracebacks",
    "V23": "imports",
    "V24": "compat",
    "V25": "pycs",
}
