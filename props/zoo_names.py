import os
import re


def names():
    return sorted(re.findall(r'^def z_(\w+)', open(os.path.join(os.path.dirname(__file__), 'zoo.py')).read(), re.M))
