//! ark-bls12-381 is a dependency of /repo that its sources do not use.
