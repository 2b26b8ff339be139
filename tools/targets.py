from vbuild import *
T = {}
MCV = lambda: repo("multicomponent_vector")
T["unit_euler"] = lambda: [h("unit_euler", "euler")] + MCV() + repo("simd")
T["unit_sw"] = lambda: [h("unit_sw", "shallow_water")] + MCV() + repo("simd")
T["unit_aeos"] = lambda: ([h("unit_aeos", "euler_aeos")] + MCV() + repo("simd")
    + repo("equation_of_state_library", "euler_aeos", sub=True))
T["unit_scalar"] = lambda: ([h("unit_scalar", "scalar_conservation")] + MCV() + repo("simd")
    + repo("flux_library", "scalar_conservation", sub=True))
ALL = [1, 2, 3]
T["sys_euler"] = lambda: [h("sys_euler", "euler")] + sys_objs(["euler"], ALL)
T["sys_aeos"] = lambda: [h("sys_aeos", "euler_aeos")] + sys_objs(["euler_aeos"], ALL)
T["sys_sw"] = lambda: [h("sys_sw", "shallow_water")] + sys_objs(["shallow_water"], ALL)
T["sys_scalar"] = lambda: [h("sys_scalar", "scalar_conservation")] + sys_objs(["scalar_conservation"], ALL)
T["sys_offline"] = lambda: [h("sys_offline", "scalar_conservation")] + sys_objs(["scalar_conservation"], ALL)
T["visc"] = lambda: [h("visc", "navier_stokes")] + sys_objs(["navier_stokes"], ALL)
T["geo"] = lambda: [h("geo", "scalar_conservation")] + sys_objs(["scalar_conservation"], ALL)
T["init_euler"] = lambda: [h("init_euler", "euler")] + sys_objs(["euler"], ALL)
T["init_aeos"] = lambda: [h("init_aeos", "euler_aeos")] + sys_objs(["euler_aeos"], ALL)
T["init_sw"] = lambda: [h("init_sw", "shallow_water")] + sys_objs(["shallow_water"], ALL)
T["init_scalar"] = lambda: [h("init_scalar", "scalar_conservation")] + sys_objs(["scalar_conservation"], ALL)
EQS = {"euler": "e", "euler_aeos": "a", "navier_stokes": "n", "scalar_conservation": "c", "shallow_water": "s"}
for _e, _k in EQS.items():
    T["ryujin_" + _k] = lambda e=_e: driver_objs([e], ALL)
T["ryujin"] = lambda: driver_objs(list(EQS), ALL)
if __name__ == "__main__":
    import sys
    build(sys.argv[1:] or list(T), T, verbose=True)
