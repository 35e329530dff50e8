package core

import "math/big"

var verifOne = big.NewInt(1)
