package main

import (
	"reflect"

	"github.com/takakv/msc-poc/voteproof"
)

// What the voter and the collector return besides the ballot and the verdict (timings) is
// of no interest here.

func zDoCast(pp PublicParameters) BallotData {
	return reflect.ValueOf(castVote).Call([]reflect.Value{reflect.ValueOf(pp)})[0].Interface().(BallotData)
}

func zDoVerify(b BallotData, rp voteproof.ProofParams) bool {
	return reflect.ValueOf(verifyVote).Call([]reflect.Value{reflect.ValueOf(b), reflect.ValueOf(rp)})[0].Bool()
}
