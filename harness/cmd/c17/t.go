package main

import gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

type gv = gl.Variable
type qe = gl.QuadraticExtensionVariable
