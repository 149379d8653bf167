# Where build.sh leaves things. To be sourced from /verif.
export SIM_VERIF=$PWD
export SIM_STUB=$SIM_VERIF/.build/stub.so
export SIM_MDBOOK=$SIM_VERIF/.build/target/debug/mdbook-aquascope
export SIM_SERVE=$SIM_VERIF/.build/target/debug/aquascope_serve
export SIM_RUNNER=$SIM_VERIF/.build/rt/release/simrunner
export SIM_DRIVER=$SIM_VERIF/.build/target/debug/aquascope-driver
export SIM_SYSROOT=$(RUSTUP_TOOLCHAIN=nightly-2024-12-15 rustc --print sysroot)
