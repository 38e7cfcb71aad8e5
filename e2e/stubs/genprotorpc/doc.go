package rpc
