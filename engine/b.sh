#!/bin/bash
cd /verif/engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /tmp/zkverif . 
