from .bad import Thing, missing
