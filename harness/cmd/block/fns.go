package main

import "verif/harness/api"

type (
	encFn = api.EncFn
	decFn = api.DecFn
)

var encoders, decoders, lanes = api.Encoders, api.Decoders, api.Lanes
