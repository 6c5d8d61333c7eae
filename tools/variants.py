"""Which monitor binaries decide which property, and how they are built."""
CRATES = ["ragu", "ragu_arithmetic", "ragu_circuits", "ragu_core", "ragu_gadgets", "ragu_macros", "ragu_pasta",
          "ragu_pcd", "ragu_primitives", "ragu_testing"]
BUILDS = {
    "serial": dict(),
    "mc": dict(features=["multicore"]),
    "tsan": dict(toolchain="+nightly", rustflags=["-Zsanitizer=thread"], args=["-Zbuild-std"],
                 target_args=["--target", "x86_64-unknown-linux-gnu"], subdir="x86_64-unknown-linux-gnu/debug", features=["multicore"]),
    "miri": dict(toolchain="+nightly", miri=True, features=["multicore"]),
}
def both(pkg, **kw):
    return [dict(build="mc", pkg=pkg, **kw), dict(build="serial", pkg=pkg, **kw)]
def one(pkg, build="serial", **kw):
    return [dict(build=build, pkg=pkg, **kw)]
VARIANTS = {
    "A01": both("arith"), "A02": one("arith"), "A03": both("arith"), "A04": one("arith"), "A05": one("arith"), "A06": one("arith"),
    "C01": one("core_chk") + one("core_chk", externs=["ragu_core"], emit="obj"), "C02": one("core_chk"), "C03": one("core_chk"), "C05": one("core_chk"),
    "M01": one("mac_m01_core", generated=True) + one("mac_m01", generated=True) + one("mac_m01", externs=["ragu_core", "ragu_primitives", "vh", "ff"]),
    "M02": one("mac_m02", generated=True) + one("mac_m02", externs=["ragu_core", "ragu_macros", "vh", "ff"]),
    "P01": one("prims"), "P02": one("prims"), "P03": one("prims"), "P04": one("prims"), "P05": one("sponge"), "P06": one("containers"),
    "P07": one("prims"), "C04": one("prims"),
    "K01": one("circuits"), "K02": both("circuits"), "K03": both("circuits"), "K04": one("circuits"), "K12": one("circuits"), "K08": one("stages"), "K09": one("stages"),
    "K05": one("regs"), "K10": one("regs"), "K06": one("polys"), "K07": one("polys"),
    "K11": one("par") + one("par", "mc") + one("pcd") + one("pcd", "mc")
    + one("par", "tsan", env=dict(VERIF_LEAN="2", TSAN_OPTIONS="exitcode=66 halt_on_error=1"), sanitizer=True, canary="canary")
    + one("par", "miri", env=dict(VERIF_LEAN="1", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"),
          tiers=("thorough",), no_prebuild=True),
    "G01": one("params"), "G02": one("params"), "D08": one("pcd"), "D09": one("pcd"),
    "D01": one("pcd"), "D02": one("pcd"), "D03": one("pcd"), "D04": one("pcd"), "D05": one("pcd"), "D06": one("pcd"), "D07": one("pcd"),
    "A07": one("mac_a07", generated=True) + one("mac_a07", externs=["ragu_macros"]) + one("mac_a07_fields", generated=True),
}
