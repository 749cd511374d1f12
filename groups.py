# which sources and harness files each check binary is made of
CORE = ["core/[!d]*.cpp", "platform/sfw.cpp", "platform/image.cpp"]  # all but data.cpp, which needs the models
PLAT = ["platform/sfw.cpp", "platform/image.cpp"]
MODS = CORE + ["core/data.cpp", "modules/*/*.cpp"]

GROUPS = {
    "containers": {"sources": CORE, "harness": ["props_vector.cpp", "props_matrix.cpp", "props_tensor.cpp", "props_elementwise.cpp"]},
    "linalg": {"sources": CORE, "harness": ["props_linalg.cpp"]},
    "functions": {"sources": CORE, "harness": ["props_functions.cpp"]},
    "numeric": {"sources": MODS, "harness": ["props_numeric.cpp"]},
    "data": {"sources": MODS, "harness": ["props_data.cpp"]},
    "training": {"sources": MODS, "harness": ["props_train.cpp"]},
    "nets": {"sources": MODS, "harness": ["props_nets.cpp"]},
    "containers2": {"sources": PLAT, "san_platform": True, "harness": ["props_containers.cpp", "props_keys.cpp"]},
    "strings": {"sources": PLAT, "san_platform": True, "harness": ["props_strings.cpp", "props_text.cpp"]},
    "math": {"sources": PLAT, "san_platform": True, "harness": ["props_math.cpp", "props_space.cpp"]},
    "values": {"sources": PLAT, "san_platform": True, "harness": ["props_variant.cpp", "props_values.cpp", "props_files.cpp"]},
    "objects": {"sources": PLAT, "san_platform": True, "harness": ["props_object.cpp"]},
    "schedules": {"sources": PLAT, "san_platform": True, "sched": True, "harness": ["props_sched.cpp", "vtsched.cpp"]},
    "system": {"sources": PLAT, "san_platform": True, "harness": ["props_system.cpp"]},
    "races": {"sources": MODS, "tsan": True, "harness": ["props_races.cpp"]},
    "images": {"sources": PLAT, "san_platform": True, "harness": ["props_image.cpp"]},
    "models": {"sources": MODS, "harness": ["props_models.cpp"]},
}
PROPERTY_GROUP = {
    "C01": "containers", "C02": "containers", "C03": "containers", "C04": "containers", "C05": "containers",
    "C06": "linalg", "C07": "linalg", "C08": "linalg", "C09": "linalg",
    "C10": "functions", "C11": "functions", "C12": "functions", "C13": "functions", "C14": "functions",
    "C15": "numeric", "C16": "numeric", "C17": "numeric", "C18": "numeric",
    "C19": "data", "C20": "data", "C21": "data", "C22": "data", "C23": "data",
    "C24": "models", "C25": "models", "C26": "models", "C27": "models", "C28": "models", "C29": "models",
    "C30": "training", "C31": "training", "C32": "training", "C33": "training", "C34": "nets", "C35": "nets", "C36": "nets", "C38": "nets", "C39": "nets", "C37": "training", "C40": "training", "C41": "training", "C42": "training", "C43": "training", "C44": "training",
    "P01": "containers2", "P02": "containers2", "P03": "containers2", "P04": "containers2",
    "P05": "strings", "P06": "strings", "P07": "strings", "P08": "strings",
    "P09": "math", "P10": "math", "P11": "math", "P12": "math", "P13": "math",
    "P14": "values", "P15": "values", "P16": "images", "P17": "objects", "P18": "schedules", "P19": "races", "P20": "system", "P21": "system", "P22": "system", "P23": "system",
    "P24": "all",
}

# P24 runs the cases of all other properties of these groups and watches the memory
MEMORY_GROUPS = ["containers2", "strings", "values", "objects", "math", "images", "system", "containers", "linalg", "functions", "numeric", "data", "training", "nets", "models"]
MEMORY_CASES = {"quick": 1000, "thorough": 40000}

# how many times the number of cases named in the harness a quick run makes, so that each takes some 5 to 10 seconds
QUICK_SCALE = {
    "C05": 8, "C06": 4, "C07": 2, "C08": 1, "C09": 30, "C12": 30, "C13": 10, "C14": 10, "C15": 30, "C16": 4, "C18": 40, "C19": 8,
    "C20": 1.5, "C21": 40, "C22": 20, "C23": 40, "C24": 20, "C25": 20, "C26": 40, "C27": 80, "C28": 80, "C29": 80, "C30": 20,
    "C32": 4, "C33": 4, "C34": 20, "C36": 3, "C38": 8, "C39": 16, "C40": 10, "C42": 16, "C44": 20,
    "P03": 3, "P06": 10, "P09": 10, "P10": 10, "P11": 4, "P12": 16, "P13": 30, "P14": 3, "P15": 1, "P16": 16, "P17": 20, "P18": 3, "P19": 5,
}
QUICK_DEFAULT = 5
