// Code generated by tools/genbind.py. DO NOT EDIT.

package main

import (
	"github.com/brevis-network/zk-utils/common/bsc"
	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
)

var registry = []entry{
	{
		name: "eth.Address", meta: eth.AddressMetaData, abi: &eth.AddressABI, bin: eth.AddressBin, deploy: eth.DeployAddress,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAddress(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAddressCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAddressTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAddressFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Address)
			return map[string]any{
				"session":           &eth.AddressSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.AddressCallerSession{Contract: &x.AddressCaller, CallOpts: co},
				"transactorSession": &eth.AddressTransactorSession{Contract: &x.AddressTransactor, TransactOpts: to},
				"raw":               &eth.AddressRaw{Contract: x},
				"callerRaw":         &eth.AddressCallerRaw{Contract: &x.AddressCaller},
				"transactorRaw":     &eth.AddressTransactorRaw{Contract: &x.AddressTransactor},
			}
		},
	},
	{
		name: "eth.AnchorBlocks", meta: eth.AnchorBlocksMetaData, abi: &eth.AnchorBlocksABI, bin: eth.AnchorBlocksBin, deploy: eth.DeployAnchorBlocks,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAnchorBlocks(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAnchorBlocksCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewAnchorBlocksTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewAnchorBlocksFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.AnchorBlocks)
			return map[string]any{
				"session":           &eth.AnchorBlocksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.AnchorBlocksCallerSession{Contract: &x.AnchorBlocksCaller, CallOpts: co},
				"transactorSession": &eth.AnchorBlocksTransactorSession{Contract: &x.AnchorBlocksTransactor, TransactOpts: to},
				"raw":               &eth.AnchorBlocksRaw{Contract: x},
				"callerRaw":         &eth.AnchorBlocksCallerRaw{Contract: &x.AnchorBlocksCaller},
				"transactorRaw":     &eth.AnchorBlocksTransactorRaw{Contract: &x.AnchorBlocksTransactor},
			}
		},
	},
	{
		name: "eth.BalanceDeltaLibrary", meta: eth.BalanceDeltaLibraryMetaData, abi: &eth.BalanceDeltaLibraryABI, bin: eth.BalanceDeltaLibraryBin, deploy: eth.DeployBalanceDeltaLibrary,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBalanceDeltaLibrary(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBalanceDeltaLibraryCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBalanceDeltaLibraryTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBalanceDeltaLibraryFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BalanceDeltaLibrary)
			return map[string]any{
				"session":           &eth.BalanceDeltaLibrarySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BalanceDeltaLibraryCallerSession{Contract: &x.BalanceDeltaLibraryCaller, CallOpts: co},
				"transactorSession": &eth.BalanceDeltaLibraryTransactorSession{Contract: &x.BalanceDeltaLibraryTransactor, TransactOpts: to},
				"raw":               &eth.BalanceDeltaLibraryRaw{Contract: x},
				"callerRaw":         &eth.BalanceDeltaLibraryCallerRaw{Contract: &x.BalanceDeltaLibraryCaller},
				"transactorRaw":     &eth.BalanceDeltaLibraryTransactorRaw{Contract: &x.BalanceDeltaLibraryTransactor},
			}
		},
	},
	{
		name: "eth.BaseFactory", meta: eth.BaseFactoryMetaData, abi: &eth.BaseFactoryABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseFactory(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseFactoryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseFactoryTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseFactoryFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BaseFactory)
			return map[string]any{
				"session":           &eth.BaseFactorySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BaseFactoryCallerSession{Contract: &x.BaseFactoryCaller, CallOpts: co},
				"transactorSession": &eth.BaseFactoryTransactorSession{Contract: &x.BaseFactoryTransactor, TransactOpts: to},
				"raw":               &eth.BaseFactoryRaw{Contract: x},
				"callerRaw":         &eth.BaseFactoryCallerRaw{Contract: &x.BaseFactoryCaller},
				"transactorRaw":     &eth.BaseFactoryTransactorRaw{Contract: &x.BaseFactoryTransactor},
			}
		},
	},
	{
		name: "eth.BaseHook", meta: eth.BaseHookMetaData, abi: &eth.BaseHookABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseHook(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseHookCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseHookTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBaseHookFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BaseHook)
			return map[string]any{
				"session":           &eth.BaseHookSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BaseHookCallerSession{Contract: &x.BaseHookCaller, CallOpts: co},
				"transactorSession": &eth.BaseHookTransactorSession{Contract: &x.BaseHookTransactor, TransactOpts: to},
				"raw":               &eth.BaseHookRaw{Contract: x},
				"callerRaw":         &eth.BaseHookCallerRaw{Contract: &x.BaseHookCaller},
				"transactorRaw":     &eth.BaseHookTransactorRaw{Contract: &x.BaseHookTransactor},
			}
		},
	},
	{
		name: "eth.BeaconVerifier", meta: eth.BeaconVerifierMetaData, abi: &eth.BeaconVerifierABI, bin: eth.BeaconVerifierBin, deploy: eth.DeployBeaconVerifier,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBeaconVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBeaconVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBeaconVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBeaconVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BeaconVerifier)
			return map[string]any{
				"session":           &eth.BeaconVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BeaconVerifierCallerSession{Contract: &x.BeaconVerifierCaller, CallOpts: co},
				"transactorSession": &eth.BeaconVerifierTransactorSession{Contract: &x.BeaconVerifierTransactor, TransactOpts: to},
				"raw":               &eth.BeaconVerifierRaw{Contract: x},
				"callerRaw":         &eth.BeaconVerifierCallerRaw{Contract: &x.BeaconVerifierCaller},
				"transactorRaw":     &eth.BeaconVerifierTransactorRaw{Contract: &x.BeaconVerifierTransactor},
			}
		},
	},
	{
		name: "eth.BitMath", meta: eth.BitMathMetaData, abi: &eth.BitMathABI, bin: eth.BitMathBin, deploy: eth.DeployBitMath,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBitMath(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBitMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBitMathTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBitMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BitMath)
			return map[string]any{
				"session":           &eth.BitMathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BitMathCallerSession{Contract: &x.BitMathCaller, CallOpts: co},
				"transactorSession": &eth.BitMathTransactorSession{Contract: &x.BitMathTransactor, TransactOpts: to},
				"raw":               &eth.BitMathRaw{Contract: x},
				"callerRaw":         &eth.BitMathCallerRaw{Contract: &x.BitMathCaller},
				"transactorRaw":     &eth.BitMathTransactorRaw{Contract: &x.BitMathTransactor},
			}
		},
	},
	{
		name: "eth.BlockChunks", meta: eth.BlockChunksMetaData, abi: &eth.BlockChunksABI, bin: eth.BlockChunksBin, deploy: eth.DeployBlockChunks,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBlockChunks(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBlockChunksCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBlockChunksTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBlockChunksFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BlockChunks)
			return map[string]any{
				"session":           &eth.BlockChunksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BlockChunksCallerSession{Contract: &x.BlockChunksCaller, CallOpts: co},
				"transactorSession": &eth.BlockChunksTransactorSession{Contract: &x.BlockChunksTransactor, TransactOpts: to},
				"raw":               &eth.BlockChunksRaw{Contract: x},
				"callerRaw":         &eth.BlockChunksCallerRaw{Contract: &x.BlockChunksCaller},
				"transactorRaw":     &eth.BlockChunksTransactorRaw{Contract: &x.BlockChunksTransactor},
			}
		},
	},
	{
		name: "eth.BlsSigVerifier", meta: eth.BlsSigVerifierMetaData, abi: &eth.BlsSigVerifierABI, bin: eth.BlsSigVerifierBin, deploy: eth.DeployBlsSigVerifier,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBlsSigVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBlsSigVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBlsSigVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBlsSigVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BlsSigVerifier)
			return map[string]any{
				"session":           &eth.BlsSigVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BlsSigVerifierCallerSession{Contract: &x.BlsSigVerifierCaller, CallOpts: co},
				"transactorSession": &eth.BlsSigVerifierTransactorSession{Contract: &x.BlsSigVerifierTransactor, TransactOpts: to},
				"raw":               &eth.BlsSigVerifierRaw{Contract: x},
				"callerRaw":         &eth.BlsSigVerifierCallerRaw{Contract: &x.BlsSigVerifierCaller},
				"transactorRaw":     &eth.BlsSigVerifierTransactorRaw{Contract: &x.BlsSigVerifierTransactor},
			}
		},
	},
	{
		name: "eth.Brevis", meta: eth.BrevisMetaData, abi: &eth.BrevisABI, bin: eth.BrevisBin, deploy: eth.DeployBrevis,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevis(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Brevis)
			return map[string]any{
				"session":           &eth.BrevisSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisCallerSession{Contract: &x.BrevisCaller, CallOpts: co},
				"transactorSession": &eth.BrevisTransactorSession{Contract: &x.BrevisTransactor, TransactOpts: to},
				"raw":               &eth.BrevisRaw{Contract: x},
				"callerRaw":         &eth.BrevisCallerRaw{Contract: &x.BrevisCaller},
				"transactorRaw":     &eth.BrevisTransactorRaw{Contract: &x.BrevisTransactor},
			}
		},
	},
	{
		name: "eth.BrevisAccess", meta: eth.BrevisAccessMetaData, abi: &eth.BrevisAccessABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAccess(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAccessCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBrevisAccessTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAccessFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisAccess)
			return map[string]any{
				"session":           &eth.BrevisAccessSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisAccessCallerSession{Contract: &x.BrevisAccessCaller, CallOpts: co},
				"transactorSession": &eth.BrevisAccessTransactorSession{Contract: &x.BrevisAccessTransactor, TransactOpts: to},
				"raw":               &eth.BrevisAccessRaw{Contract: x},
				"callerRaw":         &eth.BrevisAccessCallerRaw{Contract: &x.BrevisAccessCaller},
				"transactorRaw":     &eth.BrevisAccessTransactorRaw{Contract: &x.BrevisAccessTransactor},
			}
		},
	},
	{
		name: "eth.BrevisAggProof", meta: eth.BrevisAggProofMetaData, abi: &eth.BrevisAggProofABI, bin: eth.BrevisAggProofBin, deploy: eth.DeployBrevisAggProof,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAggProof(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAggProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBrevisAggProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBrevisAggProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisAggProof)
			return map[string]any{
				"session":           &eth.BrevisAggProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisAggProofCallerSession{Contract: &x.BrevisAggProofCaller, CallOpts: co},
				"transactorSession": &eth.BrevisAggProofTransactorSession{Contract: &x.BrevisAggProofTransactor, TransactOpts: to},
				"raw":               &eth.BrevisAggProofRaw{Contract: x},
				"callerRaw":         &eth.BrevisAggProofCallerRaw{Contract: &x.BrevisAggProofCaller},
				"transactorRaw":     &eth.BrevisAggProofTransactorRaw{Contract: &x.BrevisAggProofTransactor},
			}
		},
	},
	{
		name: "eth.BrevisApp", meta: eth.BrevisAppMetaData, abi: &eth.BrevisAppABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisApp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAppCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAppTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisAppFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisApp)
			return map[string]any{
				"session":           &eth.BrevisAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisAppCallerSession{Contract: &x.BrevisAppCaller, CallOpts: co},
				"transactorSession": &eth.BrevisAppTransactorSession{Contract: &x.BrevisAppTransactor, TransactOpts: to},
				"raw":               &eth.BrevisAppRaw{Contract: x},
				"callerRaw":         &eth.BrevisAppCallerRaw{Contract: &x.BrevisAppCaller},
				"transactorRaw":     &eth.BrevisAppTransactorRaw{Contract: &x.BrevisAppTransactor},
			}
		},
	},
	{
		name: "eth.BrevisDispute", meta: eth.BrevisDisputeMetaData, abi: &eth.BrevisDisputeABI, bin: eth.BrevisDisputeBin, deploy: eth.DeployBrevisDispute,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisDispute(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisDisputeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBrevisDisputeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisDisputeFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisDispute)
			return map[string]any{
				"session":           &eth.BrevisDisputeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisDisputeCallerSession{Contract: &x.BrevisDisputeCaller, CallOpts: co},
				"transactorSession": &eth.BrevisDisputeTransactorSession{Contract: &x.BrevisDisputeTransactor, TransactOpts: to},
				"raw":               &eth.BrevisDisputeRaw{Contract: x},
				"callerRaw":         &eth.BrevisDisputeCallerRaw{Contract: &x.BrevisDisputeCaller},
				"transactorRaw":     &eth.BrevisDisputeTransactorRaw{Contract: &x.BrevisDisputeTransactor},
			}
		},
	},
	{
		name: "eth.BrevisProof", meta: eth.BrevisProofMetaData, abi: &eth.BrevisProofABI, bin: eth.BrevisProofBin, deploy: eth.DeployBrevisProof,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisProof(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisProofTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisProofFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisProof)
			return map[string]any{
				"session":           &eth.BrevisProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisProofCallerSession{Contract: &x.BrevisProofCaller, CallOpts: co},
				"transactorSession": &eth.BrevisProofTransactorSession{Contract: &x.BrevisProofTransactor, TransactOpts: to},
				"raw":               &eth.BrevisProofRaw{Contract: x},
				"callerRaw":         &eth.BrevisProofCallerRaw{Contract: &x.BrevisProofCaller},
				"transactorRaw":     &eth.BrevisProofTransactorRaw{Contract: &x.BrevisProofTransactor},
			}
		},
	},
	{
		name: "eth.BrevisRequest", meta: eth.BrevisRequestMetaData, abi: &eth.BrevisRequestABI, bin: eth.BrevisRequestBin, deploy: eth.DeployBrevisRequest,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisRequest(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisRequestCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewBrevisRequestTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisRequestFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisRequest)
			return map[string]any{
				"session":           &eth.BrevisRequestSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisRequestCallerSession{Contract: &x.BrevisRequestCaller, CallOpts: co},
				"transactorSession": &eth.BrevisRequestTransactorSession{Contract: &x.BrevisRequestTransactor, TransactOpts: to},
				"raw":               &eth.BrevisRequestRaw{Contract: x},
				"callerRaw":         &eth.BrevisRequestCallerRaw{Contract: &x.BrevisRequestCaller},
				"transactorRaw":     &eth.BrevisRequestTransactorRaw{Contract: &x.BrevisRequestTransactor},
			}
		},
	},
	{
		name: "eth.BrevisZkApp", meta: eth.BrevisZkAppMetaData, abi: &eth.BrevisZkAppABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisZkApp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisZkAppCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisZkAppTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewBrevisZkAppFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.BrevisZkApp)
			return map[string]any{
				"session":           &eth.BrevisZkAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.BrevisZkAppCallerSession{Contract: &x.BrevisZkAppCaller, CallOpts: co},
				"transactorSession": &eth.BrevisZkAppTransactorSession{Contract: &x.BrevisZkAppTransactor, TransactOpts: to},
				"raw":               &eth.BrevisZkAppRaw{Contract: x},
				"callerRaw":         &eth.BrevisZkAppCallerRaw{Contract: &x.BrevisZkAppCaller},
				"transactorRaw":     &eth.BrevisZkAppTransactorRaw{Contract: &x.BrevisZkAppTransactor},
			}
		},
	},
	{
		name: "eth.CommitteeRootMappingVerifier", meta: eth.CommitteeRootMappingVerifierMetaData, abi: &eth.CommitteeRootMappingVerifierABI, bin: eth.CommitteeRootMappingVerifierBin, deploy: eth.DeployCommitteeRootMappingVerifier,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewCommitteeRootMappingVerifier(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewCommitteeRootMappingVerifierCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewCommitteeRootMappingVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewCommitteeRootMappingVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.CommitteeRootMappingVerifier)
			return map[string]any{
				"session":           &eth.CommitteeRootMappingVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.CommitteeRootMappingVerifierCallerSession{Contract: &x.CommitteeRootMappingVerifierCaller, CallOpts: co},
				"transactorSession": &eth.CommitteeRootMappingVerifierTransactorSession{Contract: &x.CommitteeRootMappingVerifierTransactor, TransactOpts: to},
				"raw":               &eth.CommitteeRootMappingVerifierRaw{Contract: x},
				"callerRaw":         &eth.CommitteeRootMappingVerifierCallerRaw{Contract: &x.CommitteeRootMappingVerifierCaller},
				"transactorRaw":     &eth.CommitteeRootMappingVerifierTransactorRaw{Contract: &x.CommitteeRootMappingVerifierTransactor},
			}
		},
	},
	{
		name: "eth.Common", meta: eth.CommonMetaData, abi: &eth.CommonABI, bin: eth.CommonBin, deploy: eth.DeployCommon,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewCommon(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewCommonCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewCommonTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewCommonFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Common)
			return map[string]any{
				"session":           &eth.CommonSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.CommonCallerSession{Contract: &x.CommonCaller, CallOpts: co},
				"transactorSession": &eth.CommonTransactorSession{Contract: &x.CommonTransactor, TransactOpts: to},
				"raw":               &eth.CommonRaw{Contract: x},
				"callerRaw":         &eth.CommonCallerRaw{Contract: &x.CommonCaller},
				"transactorRaw":     &eth.CommonTransactorRaw{Contract: &x.CommonTransactor},
			}
		},
	},
	{
		name: "eth.Context", meta: eth.ContextMetaData, abi: &eth.ContextABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewContext(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewContextCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewContextTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewContextFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Context)
			return map[string]any{
				"session":           &eth.ContextSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ContextCallerSession{Contract: &x.ContextCaller, CallOpts: co},
				"transactorSession": &eth.ContextTransactorSession{Contract: &x.ContextTransactor, TransactOpts: to},
				"raw":               &eth.ContextRaw{Contract: x},
				"callerRaw":         &eth.ContextCallerRaw{Contract: &x.ContextCaller},
				"transactorRaw":     &eth.ContextTransactorRaw{Contract: &x.ContextTransactor},
			}
		},
	},
	{
		name: "eth.CurrencyLibrary", meta: eth.CurrencyLibraryMetaData, abi: &eth.CurrencyLibraryABI, bin: eth.CurrencyLibraryBin, deploy: eth.DeployCurrencyLibrary,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewCurrencyLibrary(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewCurrencyLibraryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewCurrencyLibraryTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewCurrencyLibraryFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.CurrencyLibrary)
			return map[string]any{
				"session":           &eth.CurrencyLibrarySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.CurrencyLibraryCallerSession{Contract: &x.CurrencyLibraryCaller, CallOpts: co},
				"transactorSession": &eth.CurrencyLibraryTransactorSession{Contract: &x.CurrencyLibraryTransactor, TransactOpts: to},
				"raw":               &eth.CurrencyLibraryRaw{Contract: x},
				"callerRaw":         &eth.CurrencyLibraryCallerRaw{Contract: &x.CurrencyLibraryCaller},
				"transactorRaw":     &eth.CurrencyLibraryTransactorRaw{Contract: &x.CurrencyLibraryTransactor},
			}
		},
	},
	{
		name: "eth.ERC20", meta: eth.ERC20MetaData, abi: &eth.ERC20ABI, bin: eth.ERC20Bin, deploy: eth.DeployERC20,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20Transactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ERC20)
			return map[string]any{
				"session":           &eth.ERC20Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ERC20CallerSession{Contract: &x.ERC20Caller, CallOpts: co},
				"transactorSession": &eth.ERC20TransactorSession{Contract: &x.ERC20Transactor, TransactOpts: to},
				"raw":               &eth.ERC20Raw{Contract: x},
				"callerRaw":         &eth.ERC20CallerRaw{Contract: &x.ERC20Caller},
				"transactorRaw":     &eth.ERC20TransactorRaw{Contract: &x.ERC20Transactor},
			}
		},
	},
	{
		name: "eth.ERC20Burnable", meta: eth.ERC20BurnableMetaData, abi: &eth.ERC20BurnableABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20Burnable(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20BurnableCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewERC20BurnableTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewERC20BurnableFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ERC20Burnable)
			return map[string]any{
				"session":           &eth.ERC20BurnableSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ERC20BurnableCallerSession{Contract: &x.ERC20BurnableCaller, CallOpts: co},
				"transactorSession": &eth.ERC20BurnableTransactorSession{Contract: &x.ERC20BurnableTransactor, TransactOpts: to},
				"raw":               &eth.ERC20BurnableRaw{Contract: x},
				"callerRaw":         &eth.ERC20BurnableCallerRaw{Contract: &x.ERC20BurnableCaller},
				"transactorRaw":     &eth.ERC20BurnableTransactorRaw{Contract: &x.ERC20BurnableTransactor},
			}
		},
	},
	{
		name: "eth.EthereumLightClient", meta: eth.EthereumLightClientMetaData, abi: &eth.EthereumLightClientABI, bin: eth.EthereumLightClientBin, deploy: eth.DeployEthereumLightClient,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewEthereumLightClient(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewEthereumLightClientCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewEthereumLightClientTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewEthereumLightClientFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.EthereumLightClient)
			return map[string]any{
				"session":           &eth.EthereumLightClientSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.EthereumLightClientCallerSession{Contract: &x.EthereumLightClientCaller, CallOpts: co},
				"transactorSession": &eth.EthereumLightClientTransactorSession{Contract: &x.EthereumLightClientTransactor, TransactOpts: to},
				"raw":               &eth.EthereumLightClientRaw{Contract: x},
				"callerRaw":         &eth.EthereumLightClientCallerRaw{Contract: &x.EthereumLightClientCaller},
				"transactorRaw":     &eth.EthereumLightClientTransactorRaw{Contract: &x.EthereumLightClientTransactor},
			}
		},
	},
	{
		name: "eth.FeeLibrary", meta: eth.FeeLibraryMetaData, abi: &eth.FeeLibraryABI, bin: eth.FeeLibraryBin, deploy: eth.DeployFeeLibrary,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeLibrary(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeLibraryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeLibraryTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeLibraryFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.FeeLibrary)
			return map[string]any{
				"session":           &eth.FeeLibrarySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.FeeLibraryCallerSession{Contract: &x.FeeLibraryCaller, CallOpts: co},
				"transactorSession": &eth.FeeLibraryTransactorSession{Contract: &x.FeeLibraryTransactor, TransactOpts: to},
				"raw":               &eth.FeeLibraryRaw{Contract: x},
				"callerRaw":         &eth.FeeLibraryCallerRaw{Contract: &x.FeeLibraryCaller},
				"transactorRaw":     &eth.FeeLibraryTransactorRaw{Contract: &x.FeeLibraryTransactor},
			}
		},
	},
	{
		name: "eth.FeeVault", meta: eth.FeeVaultMetaData, abi: &eth.FeeVaultABI, bin: eth.FeeVaultBin, deploy: eth.DeployFeeVault,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeVault(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeVaultCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeVaultTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFeeVaultFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.FeeVault)
			return map[string]any{
				"session":           &eth.FeeVaultSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.FeeVaultCallerSession{Contract: &x.FeeVaultCaller, CallOpts: co},
				"transactorSession": &eth.FeeVaultTransactorSession{Contract: &x.FeeVaultTransactor, TransactOpts: to},
				"raw":               &eth.FeeVaultRaw{Contract: x},
				"callerRaw":         &eth.FeeVaultCallerRaw{Contract: &x.FeeVaultCaller},
				"transactorRaw":     &eth.FeeVaultTransactorRaw{Contract: &x.FeeVaultTransactor},
			}
		},
	},
	{
		name: "eth.FixedPoint128", meta: eth.FixedPoint128MetaData, abi: &eth.FixedPoint128ABI, bin: eth.FixedPoint128Bin, deploy: eth.DeployFixedPoint128,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFixedPoint128(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFixedPoint128Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewFixedPoint128Transactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFixedPoint128Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.FixedPoint128)
			return map[string]any{
				"session":           &eth.FixedPoint128Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.FixedPoint128CallerSession{Contract: &x.FixedPoint128Caller, CallOpts: co},
				"transactorSession": &eth.FixedPoint128TransactorSession{Contract: &x.FixedPoint128Transactor, TransactOpts: to},
				"raw":               &eth.FixedPoint128Raw{Contract: x},
				"callerRaw":         &eth.FixedPoint128CallerRaw{Contract: &x.FixedPoint128Caller},
				"transactorRaw":     &eth.FixedPoint128TransactorRaw{Contract: &x.FixedPoint128Transactor},
			}
		},
	},
	{
		name: "eth.FixedPoint96", meta: eth.FixedPoint96MetaData, abi: &eth.FixedPoint96ABI, bin: eth.FixedPoint96Bin, deploy: eth.DeployFixedPoint96,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFixedPoint96(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFixedPoint96Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewFixedPoint96Transactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFixedPoint96Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.FixedPoint96)
			return map[string]any{
				"session":           &eth.FixedPoint96Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.FixedPoint96CallerSession{Contract: &x.FixedPoint96Caller, CallOpts: co},
				"transactorSession": &eth.FixedPoint96TransactorSession{Contract: &x.FixedPoint96Transactor, TransactOpts: to},
				"raw":               &eth.FixedPoint96Raw{Contract: x},
				"callerRaw":         &eth.FixedPoint96CallerRaw{Contract: &x.FixedPoint96Caller},
				"transactorRaw":     &eth.FixedPoint96TransactorRaw{Contract: &x.FixedPoint96Transactor},
			}
		},
	},
	{
		name: "eth.FullMath", meta: eth.FullMathMetaData, abi: &eth.FullMathABI, bin: eth.FullMathBin, deploy: eth.DeployFullMath,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFullMath(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFullMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFullMathTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewFullMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.FullMath)
			return map[string]any{
				"session":           &eth.FullMathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.FullMathCallerSession{Contract: &x.FullMathCaller, CallOpts: co},
				"transactorSession": &eth.FullMathTransactorSession{Contract: &x.FullMathTransactor, TransactOpts: to},
				"raw":               &eth.FullMathRaw{Contract: x},
				"callerRaw":         &eth.FullMathCallerRaw{Contract: &x.FullMathCaller},
				"transactorRaw":     &eth.FullMathTransactorRaw{Contract: &x.FullMathTransactor},
			}
		},
	},
	{
		name: "eth.Helpers", meta: eth.HelpersMetaData, abi: &eth.HelpersABI, bin: eth.HelpersBin, deploy: eth.DeployHelpers,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHelpers(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHelpersCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHelpersTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHelpersFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Helpers)
			return map[string]any{
				"session":           &eth.HelpersSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.HelpersCallerSession{Contract: &x.HelpersCaller, CallOpts: co},
				"transactorSession": &eth.HelpersTransactorSession{Contract: &x.HelpersTransactor, TransactOpts: to},
				"raw":               &eth.HelpersRaw{Contract: x},
				"callerRaw":         &eth.HelpersCallerRaw{Contract: &x.HelpersCaller},
				"transactorRaw":     &eth.HelpersTransactorRaw{Contract: &x.HelpersTransactor},
			}
		},
	},
	{
		name: "eth.Hooks", meta: eth.HooksMetaData, abi: &eth.HooksABI, bin: eth.HooksBin, deploy: eth.DeployHooks,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHooks(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHooksCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHooksTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewHooksFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Hooks)
			return map[string]any{
				"session":           &eth.HooksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.HooksCallerSession{Contract: &x.HooksCaller, CallOpts: co},
				"transactorSession": &eth.HooksTransactorSession{Contract: &x.HooksTransactor, TransactOpts: to},
				"raw":               &eth.HooksRaw{Contract: x},
				"callerRaw":         &eth.HooksCallerRaw{Contract: &x.HooksCaller},
				"transactorRaw":     &eth.HooksTransactorRaw{Contract: &x.HooksTransactor},
			}
		},
	},
	{
		name: "eth.IAnchorBlocks", meta: eth.IAnchorBlocksMetaData, abi: &eth.IAnchorBlocksABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIAnchorBlocks(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIAnchorBlocksCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIAnchorBlocksTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIAnchorBlocksFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IAnchorBlocks)
			return map[string]any{
				"session":           &eth.IAnchorBlocksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IAnchorBlocksCallerSession{Contract: &x.IAnchorBlocksCaller, CallOpts: co},
				"transactorSession": &eth.IAnchorBlocksTransactorSession{Contract: &x.IAnchorBlocksTransactor, TransactOpts: to},
				"raw":               &eth.IAnchorBlocksRaw{Contract: x},
				"callerRaw":         &eth.IAnchorBlocksCallerRaw{Contract: &x.IAnchorBlocksCaller},
				"transactorRaw":     &eth.IAnchorBlocksTransactorRaw{Contract: &x.IAnchorBlocksTransactor},
			}
		},
	},
	{
		name: "eth.IAvsSigsVerifier", meta: eth.IAvsSigsVerifierMetaData, abi: &eth.IAvsSigsVerifierABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIAvsSigsVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIAvsSigsVerifierCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIAvsSigsVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIAvsSigsVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IAvsSigsVerifier)
			return map[string]any{
				"session":           &eth.IAvsSigsVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IAvsSigsVerifierCallerSession{Contract: &x.IAvsSigsVerifierCaller, CallOpts: co},
				"transactorSession": &eth.IAvsSigsVerifierTransactorSession{Contract: &x.IAvsSigsVerifierTransactor, TransactOpts: to},
				"raw":               &eth.IAvsSigsVerifierRaw{Contract: x},
				"callerRaw":         &eth.IAvsSigsVerifierCallerRaw{Contract: &x.IAvsSigsVerifierCaller},
				"transactorRaw":     &eth.IAvsSigsVerifierTransactorRaw{Contract: &x.IAvsSigsVerifierTransactor},
			}
		},
	},
	{
		name: "eth.IBeaconVerifier", meta: eth.IBeaconVerifierMetaData, abi: &eth.IBeaconVerifierABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBeaconVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBeaconVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBeaconVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBeaconVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBeaconVerifier)
			return map[string]any{
				"session":           &eth.IBeaconVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBeaconVerifierCallerSession{Contract: &x.IBeaconVerifierCaller, CallOpts: co},
				"transactorSession": &eth.IBeaconVerifierTransactorSession{Contract: &x.IBeaconVerifierTransactor, TransactOpts: to},
				"raw":               &eth.IBeaconVerifierRaw{Contract: x},
				"callerRaw":         &eth.IBeaconVerifierCallerRaw{Contract: &x.IBeaconVerifierCaller},
				"transactorRaw":     &eth.IBeaconVerifierTransactorRaw{Contract: &x.IBeaconVerifierTransactor},
			}
		},
	},
	{
		name: "eth.IBlockChunks", meta: eth.IBlockChunksMetaData, abi: &eth.IBlockChunksABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBlockChunks(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBlockChunksCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBlockChunksTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBlockChunksFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBlockChunks)
			return map[string]any{
				"session":           &eth.IBlockChunksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBlockChunksCallerSession{Contract: &x.IBlockChunksCaller, CallOpts: co},
				"transactorSession": &eth.IBlockChunksTransactorSession{Contract: &x.IBlockChunksTransactor, TransactOpts: to},
				"raw":               &eth.IBlockChunksRaw{Contract: x},
				"callerRaw":         &eth.IBlockChunksCallerRaw{Contract: &x.IBlockChunksCaller},
				"transactorRaw":     &eth.IBlockChunksTransactorRaw{Contract: &x.IBlockChunksTransactor},
			}
		},
	},
	{
		name: "eth.IBrevisApp", meta: eth.IBrevisAppMetaData, abi: &eth.IBrevisAppABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisApp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisAppCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisAppTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisAppFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBrevisApp)
			return map[string]any{
				"session":           &eth.IBrevisAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBrevisAppCallerSession{Contract: &x.IBrevisAppCaller, CallOpts: co},
				"transactorSession": &eth.IBrevisAppTransactorSession{Contract: &x.IBrevisAppTransactor, TransactOpts: to},
				"raw":               &eth.IBrevisAppRaw{Contract: x},
				"callerRaw":         &eth.IBrevisAppCallerRaw{Contract: &x.IBrevisAppCaller},
				"transactorRaw":     &eth.IBrevisAppTransactorRaw{Contract: &x.IBrevisAppTransactor},
			}
		},
	},
	{
		name: "eth.IBrevisDispute", meta: eth.IBrevisDisputeMetaData, abi: &eth.IBrevisDisputeABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisDispute(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisDisputeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBrevisDisputeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBrevisDisputeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBrevisDispute)
			return map[string]any{
				"session":           &eth.IBrevisDisputeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBrevisDisputeCallerSession{Contract: &x.IBrevisDisputeCaller, CallOpts: co},
				"transactorSession": &eth.IBrevisDisputeTransactorSession{Contract: &x.IBrevisDisputeTransactor, TransactOpts: to},
				"raw":               &eth.IBrevisDisputeRaw{Contract: x},
				"callerRaw":         &eth.IBrevisDisputeCallerRaw{Contract: &x.IBrevisDisputeCaller},
				"transactorRaw":     &eth.IBrevisDisputeTransactorRaw{Contract: &x.IBrevisDisputeTransactor},
			}
		},
	},
	{
		name: "eth.IBrevisProof", meta: eth.IBrevisProofMetaData, abi: &eth.IBrevisProofABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisProof(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBrevisProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisProofFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBrevisProof)
			return map[string]any{
				"session":           &eth.IBrevisProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBrevisProofCallerSession{Contract: &x.IBrevisProofCaller, CallOpts: co},
				"transactorSession": &eth.IBrevisProofTransactorSession{Contract: &x.IBrevisProofTransactor, TransactOpts: to},
				"raw":               &eth.IBrevisProofRaw{Contract: x},
				"callerRaw":         &eth.IBrevisProofCallerRaw{Contract: &x.IBrevisProofCaller},
				"transactorRaw":     &eth.IBrevisProofTransactorRaw{Contract: &x.IBrevisProofTransactor},
			}
		},
	},
	{
		name: "eth.IBrevisRequest", meta: eth.IBrevisRequestMetaData, abi: &eth.IBrevisRequestABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisRequest(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisRequestCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBrevisRequestTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBrevisRequestFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBrevisRequest)
			return map[string]any{
				"session":           &eth.IBrevisRequestSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBrevisRequestCallerSession{Contract: &x.IBrevisRequestCaller, CallOpts: co},
				"transactorSession": &eth.IBrevisRequestTransactorSession{Contract: &x.IBrevisRequestTransactor, TransactOpts: to},
				"raw":               &eth.IBrevisRequestRaw{Contract: x},
				"callerRaw":         &eth.IBrevisRequestCallerRaw{Contract: &x.IBrevisRequestCaller},
				"transactorRaw":     &eth.IBrevisRequestTransactorRaw{Contract: &x.IBrevisRequestTransactor},
			}
		},
	},
	{
		name: "eth.IBrevisTypes", meta: eth.IBrevisTypesMetaData, abi: &eth.IBrevisTypesABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisTypes(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisTypesCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBrevisTypesTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBrevisTypesFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBrevisTypes)
			return map[string]any{
				"session":           &eth.IBrevisTypesSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBrevisTypesCallerSession{Contract: &x.IBrevisTypesCaller, CallOpts: co},
				"transactorSession": &eth.IBrevisTypesTransactorSession{Contract: &x.IBrevisTypesTransactor, TransactOpts: to},
				"raw":               &eth.IBrevisTypesRaw{Contract: x},
				"callerRaw":         &eth.IBrevisTypesCallerRaw{Contract: &x.IBrevisTypesCaller},
				"transactorRaw":     &eth.IBrevisTypesTransactorRaw{Contract: &x.IBrevisTypesTransactor},
			}
		},
	},
	{
		name: "eth.IBvnSigsVerifier", meta: eth.IBvnSigsVerifierMetaData, abi: &eth.IBvnSigsVerifierABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIBvnSigsVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBvnSigsVerifierCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBvnSigsVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIBvnSigsVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IBvnSigsVerifier)
			return map[string]any{
				"session":           &eth.IBvnSigsVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IBvnSigsVerifierCallerSession{Contract: &x.IBvnSigsVerifierCaller, CallOpts: co},
				"transactorSession": &eth.IBvnSigsVerifierTransactorSession{Contract: &x.IBvnSigsVerifierTransactor, TransactOpts: to},
				"raw":               &eth.IBvnSigsVerifierRaw{Contract: x},
				"callerRaw":         &eth.IBvnSigsVerifierCallerRaw{Contract: &x.IBvnSigsVerifierCaller},
				"transactorRaw":     &eth.IBvnSigsVerifierTransactorRaw{Contract: &x.IBvnSigsVerifierTransactor},
			}
		},
	},
	{
		name: "eth.IDynamicFeeManager", meta: eth.IDynamicFeeManagerMetaData, abi: &eth.IDynamicFeeManagerABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIDynamicFeeManager(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIDynamicFeeManagerCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIDynamicFeeManagerTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIDynamicFeeManagerFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IDynamicFeeManager)
			return map[string]any{
				"session":           &eth.IDynamicFeeManagerSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IDynamicFeeManagerCallerSession{Contract: &x.IDynamicFeeManagerCaller, CallOpts: co},
				"transactorSession": &eth.IDynamicFeeManagerTransactorSession{Contract: &x.IDynamicFeeManagerTransactor, TransactOpts: to},
				"raw":               &eth.IDynamicFeeManagerRaw{Contract: x},
				"callerRaw":         &eth.IDynamicFeeManagerCallerRaw{Contract: &x.IDynamicFeeManagerCaller},
				"transactorRaw":     &eth.IDynamicFeeManagerTransactorRaw{Contract: &x.IDynamicFeeManagerTransactor},
			}
		},
	},
	{
		name: "eth.IERC1155", meta: eth.IERC1155MetaData, abi: &eth.IERC1155ABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC1155(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC1155Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC1155Transactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC1155Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IERC1155)
			return map[string]any{
				"session":           &eth.IERC1155Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IERC1155CallerSession{Contract: &x.IERC1155Caller, CallOpts: co},
				"transactorSession": &eth.IERC1155TransactorSession{Contract: &x.IERC1155Transactor, TransactOpts: to},
				"raw":               &eth.IERC1155Raw{Contract: x},
				"callerRaw":         &eth.IERC1155CallerRaw{Contract: &x.IERC1155Caller},
				"transactorRaw":     &eth.IERC1155TransactorRaw{Contract: &x.IERC1155Transactor},
			}
		},
	},
	{
		name: "eth.IERC165", meta: eth.IERC165MetaData, abi: &eth.IERC165ABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC165(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC165Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC165Transactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC165Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IERC165)
			return map[string]any{
				"session":           &eth.IERC165Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IERC165CallerSession{Contract: &x.IERC165Caller, CallOpts: co},
				"transactorSession": &eth.IERC165TransactorSession{Contract: &x.IERC165Transactor, TransactOpts: to},
				"raw":               &eth.IERC165Raw{Contract: x},
				"callerRaw":         &eth.IERC165CallerRaw{Contract: &x.IERC165Caller},
				"transactorRaw":     &eth.IERC165TransactorRaw{Contract: &x.IERC165Transactor},
			}
		},
	},
	{
		name: "eth.IERC20", meta: eth.IERC20MetaData, abi: &eth.IERC20ABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20Transactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IERC20)
			return map[string]any{
				"session":           &eth.IERC20Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IERC20CallerSession{Contract: &x.IERC20Caller, CallOpts: co},
				"transactorSession": &eth.IERC20TransactorSession{Contract: &x.IERC20Transactor, TransactOpts: to},
				"raw":               &eth.IERC20Raw{Contract: x},
				"callerRaw":         &eth.IERC20CallerRaw{Contract: &x.IERC20Caller},
				"transactorRaw":     &eth.IERC20TransactorRaw{Contract: &x.IERC20Transactor},
			}
		},
	},
	{
		name: "eth.IERC20Metadata", meta: eth.IERC20MetadataMetaData, abi: &eth.IERC20MetadataABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20Metadata(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20MetadataCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIERC20MetadataTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIERC20MetadataFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IERC20Metadata)
			return map[string]any{
				"session":           &eth.IERC20MetadataSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IERC20MetadataCallerSession{Contract: &x.IERC20MetadataCaller, CallOpts: co},
				"transactorSession": &eth.IERC20MetadataTransactorSession{Contract: &x.IERC20MetadataTransactor, TransactOpts: to},
				"raw":               &eth.IERC20MetadataRaw{Contract: x},
				"callerRaw":         &eth.IERC20MetadataCallerRaw{Contract: &x.IERC20MetadataCaller},
				"transactorRaw":     &eth.IERC20MetadataTransactorRaw{Contract: &x.IERC20MetadataTransactor},
			}
		},
	},
	{
		name: "eth.IERC20Minimal", meta: eth.IERC20MinimalMetaData, abi: &eth.IERC20MinimalABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20Minimal(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20MinimalCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIERC20MinimalTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIERC20MinimalFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IERC20Minimal)
			return map[string]any{
				"session":           &eth.IERC20MinimalSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IERC20MinimalCallerSession{Contract: &x.IERC20MinimalCaller, CallOpts: co},
				"transactorSession": &eth.IERC20MinimalTransactorSession{Contract: &x.IERC20MinimalTransactor, TransactOpts: to},
				"raw":               &eth.IERC20MinimalRaw{Contract: x},
				"callerRaw":         &eth.IERC20MinimalCallerRaw{Contract: &x.IERC20MinimalCaller},
				"transactorRaw":     &eth.IERC20MinimalTransactorRaw{Contract: &x.IERC20MinimalTransactor},
			}
		},
	},
	{
		name: "eth.IEthereumLightClient", meta: eth.IEthereumLightClientMetaData, abi: &eth.IEthereumLightClientABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIEthereumLightClient(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIEthereumLightClientCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIEthereumLightClientTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIEthereumLightClientFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IEthereumLightClient)
			return map[string]any{
				"session":           &eth.IEthereumLightClientSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IEthereumLightClientCallerSession{Contract: &x.IEthereumLightClientCaller, CallOpts: co},
				"transactorSession": &eth.IEthereumLightClientTransactorSession{Contract: &x.IEthereumLightClientTransactor, TransactOpts: to},
				"raw":               &eth.IEthereumLightClientRaw{Contract: x},
				"callerRaw":         &eth.IEthereumLightClientCallerRaw{Contract: &x.IEthereumLightClientCaller},
				"transactorRaw":     &eth.IEthereumLightClientTransactorRaw{Contract: &x.IEthereumLightClientTransactor},
			}
		},
	},
	{
		name: "eth.IFees", meta: eth.IFeesMetaData, abi: &eth.IFeesABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIFees(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIFeesCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIFeesTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIFeesFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IFees)
			return map[string]any{
				"session":           &eth.IFeesSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IFeesCallerSession{Contract: &x.IFeesCaller, CallOpts: co},
				"transactorSession": &eth.IFeesTransactorSession{Contract: &x.IFeesTransactor, TransactOpts: to},
				"raw":               &eth.IFeesRaw{Contract: x},
				"callerRaw":         &eth.IFeesCallerRaw{Contract: &x.IFeesCaller},
				"transactorRaw":     &eth.IFeesTransactorRaw{Contract: &x.IFeesTransactor},
			}
		},
	},
	{
		name: "eth.IHookFeeManager", meta: eth.IHookFeeManagerMetaData, abi: &eth.IHookFeeManagerABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIHookFeeManager(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIHookFeeManagerCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIHookFeeManagerTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIHookFeeManagerFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IHookFeeManager)
			return map[string]any{
				"session":           &eth.IHookFeeManagerSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IHookFeeManagerCallerSession{Contract: &x.IHookFeeManagerCaller, CallOpts: co},
				"transactorSession": &eth.IHookFeeManagerTransactorSession{Contract: &x.IHookFeeManagerTransactor, TransactOpts: to},
				"raw":               &eth.IHookFeeManagerRaw{Contract: x},
				"callerRaw":         &eth.IHookFeeManagerCallerRaw{Contract: &x.IHookFeeManagerCaller},
				"transactorRaw":     &eth.IHookFeeManagerTransactorRaw{Contract: &x.IHookFeeManagerTransactor},
			}
		},
	},
	{
		name: "eth.IHooks", meta: eth.IHooksMetaData, abi: &eth.IHooksABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIHooks(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIHooksCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIHooksTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIHooksFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IHooks)
			return map[string]any{
				"session":           &eth.IHooksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IHooksCallerSession{Contract: &x.IHooksCaller, CallOpts: co},
				"transactorSession": &eth.IHooksTransactorSession{Contract: &x.IHooksTransactor, TransactOpts: to},
				"raw":               &eth.IHooksRaw{Contract: x},
				"callerRaw":         &eth.IHooksCallerRaw{Contract: &x.IHooksCaller},
				"transactorRaw":     &eth.IHooksTransactorRaw{Contract: &x.IHooksTransactor},
			}
		},
	},
	{
		name: "eth.IMessageBridge", meta: eth.IMessageBridgeMetaData, abi: &eth.IMessageBridgeABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIMessageBridge(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIMessageBridgeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIMessageBridgeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIMessageBridgeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IMessageBridge)
			return map[string]any{
				"session":           &eth.IMessageBridgeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IMessageBridgeCallerSession{Contract: &x.IMessageBridgeCaller, CallOpts: co},
				"transactorSession": &eth.IMessageBridgeTransactorSession{Contract: &x.IMessageBridgeTransactor, TransactOpts: to},
				"raw":               &eth.IMessageBridgeRaw{Contract: x},
				"callerRaw":         &eth.IMessageBridgeCallerRaw{Contract: &x.IMessageBridgeCaller},
				"transactorRaw":     &eth.IMessageBridgeTransactorRaw{Contract: &x.IMessageBridgeTransactor},
			}
		},
	},
	{
		name: "eth.IMessageReceiverApp", meta: eth.IMessageReceiverAppMetaData, abi: &eth.IMessageReceiverAppABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIMessageReceiverApp(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIMessageReceiverAppCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIMessageReceiverAppTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIMessageReceiverAppFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IMessageReceiverApp)
			return map[string]any{
				"session":           &eth.IMessageReceiverAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IMessageReceiverAppCallerSession{Contract: &x.IMessageReceiverAppCaller, CallOpts: co},
				"transactorSession": &eth.IMessageReceiverAppTransactorSession{Contract: &x.IMessageReceiverAppTransactor, TransactOpts: to},
				"raw":               &eth.IMessageReceiverAppRaw{Contract: x},
				"callerRaw":         &eth.IMessageReceiverAppCallerRaw{Contract: &x.IMessageReceiverAppCaller},
				"transactorRaw":     &eth.IMessageReceiverAppTransactorRaw{Contract: &x.IMessageReceiverAppTransactor},
			}
		},
	},
	{
		name: "eth.IPeggedToken", meta: eth.IPeggedTokenMetaData, abi: &eth.IPeggedTokenABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIPeggedToken(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIPeggedTokenCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIPeggedTokenTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIPeggedTokenFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IPeggedToken)
			return map[string]any{
				"session":           &eth.IPeggedTokenSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IPeggedTokenCallerSession{Contract: &x.IPeggedTokenCaller, CallOpts: co},
				"transactorSession": &eth.IPeggedTokenTransactorSession{Contract: &x.IPeggedTokenTransactor, TransactOpts: to},
				"raw":               &eth.IPeggedTokenRaw{Contract: x},
				"callerRaw":         &eth.IPeggedTokenCallerRaw{Contract: &x.IPeggedTokenCaller},
				"transactorRaw":     &eth.IPeggedTokenTransactorRaw{Contract: &x.IPeggedTokenTransactor},
			}
		},
	},
	{
		name: "eth.IPoolManager", meta: eth.IPoolManagerMetaData, abi: &eth.IPoolManagerABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIPoolManager(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIPoolManagerCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIPoolManagerTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIPoolManagerFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IPoolManager)
			return map[string]any{
				"session":           &eth.IPoolManagerSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IPoolManagerCallerSession{Contract: &x.IPoolManagerCaller, CallOpts: co},
				"transactorSession": &eth.IPoolManagerTransactorSession{Contract: &x.IPoolManagerTransactor, TransactOpts: to},
				"raw":               &eth.IPoolManagerRaw{Contract: x},
				"callerRaw":         &eth.IPoolManagerCallerRaw{Contract: &x.IPoolManagerCaller},
				"transactorRaw":     &eth.IPoolManagerTransactorRaw{Contract: &x.IPoolManagerTransactor},
			}
		},
	},
	{
		name: "eth.IReceiptVerifier", meta: eth.IReceiptVerifierMetaData, abi: &eth.IReceiptVerifierABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIReceiptVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIReceiptVerifierCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIReceiptVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIReceiptVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IReceiptVerifier)
			return map[string]any{
				"session":           &eth.IReceiptVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IReceiptVerifierCallerSession{Contract: &x.IReceiptVerifierCaller, CallOpts: co},
				"transactorSession": &eth.IReceiptVerifierTransactorSession{Contract: &x.IReceiptVerifierTransactor, TransactOpts: to},
				"raw":               &eth.IReceiptVerifierRaw{Contract: x},
				"callerRaw":         &eth.IReceiptVerifierCallerRaw{Contract: &x.IReceiptVerifierCaller},
				"transactorRaw":     &eth.IReceiptVerifierTransactorRaw{Contract: &x.IReceiptVerifierTransactor},
			}
		},
	},
	{
		name: "eth.ISMT", meta: eth.ISMTMetaData, abi: &eth.ISMTABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewISMT(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewISMTCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewISMTTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewISMTFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ISMT)
			return map[string]any{
				"session":           &eth.ISMTSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ISMTCallerSession{Contract: &x.ISMTCaller, CallOpts: co},
				"transactorSession": &eth.ISMTTransactorSession{Contract: &x.ISMTTransactor, TransactOpts: to},
				"raw":               &eth.ISMTRaw{Contract: x},
				"callerRaw":         &eth.ISMTCallerRaw{Contract: &x.ISMTCaller},
				"transactorRaw":     &eth.ISMTTransactorRaw{Contract: &x.ISMTTransactor},
			}
		},
	},
	{
		name: "eth.ISlotValueVerifier", meta: eth.ISlotValueVerifierMetaData, abi: &eth.ISlotValueVerifierABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewISlotValueVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewISlotValueVerifierCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewISlotValueVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewISlotValueVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ISlotValueVerifier)
			return map[string]any{
				"session":           &eth.ISlotValueVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ISlotValueVerifierCallerSession{Contract: &x.ISlotValueVerifierCaller, CallOpts: co},
				"transactorSession": &eth.ISlotValueVerifierTransactorSession{Contract: &x.ISlotValueVerifierTransactor, TransactOpts: to},
				"raw":               &eth.ISlotValueVerifierRaw{Contract: x},
				"callerRaw":         &eth.ISlotValueVerifierCallerRaw{Contract: &x.ISlotValueVerifierCaller},
				"transactorRaw":     &eth.ISlotValueVerifierTransactorRaw{Contract: &x.ISlotValueVerifierTransactor},
			}
		},
	},
	{
		name: "eth.ITxVerifier", meta: eth.ITxVerifierMetaData, abi: &eth.ITxVerifierABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewITxVerifier(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewITxVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewITxVerifierTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewITxVerifierFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ITxVerifier)
			return map[string]any{
				"session":           &eth.ITxVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ITxVerifierCallerSession{Contract: &x.ITxVerifierCaller, CallOpts: co},
				"transactorSession": &eth.ITxVerifierTransactorSession{Contract: &x.ITxVerifierTransactor, TransactOpts: to},
				"raw":               &eth.ITxVerifierRaw{Contract: x},
				"callerRaw":         &eth.ITxVerifierCallerRaw{Contract: &x.ITxVerifierCaller},
				"transactorRaw":     &eth.ITxVerifierTransactorRaw{Contract: &x.ITxVerifierTransactor},
			}
		},
	},
	{
		name: "eth.IUniswapSumVolume", meta: eth.IUniswapSumVolumeMetaData, abi: &eth.IUniswapSumVolumeABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIUniswapSumVolume(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIUniswapSumVolumeCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIUniswapSumVolumeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIUniswapSumVolumeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IUniswapSumVolume)
			return map[string]any{
				"session":           &eth.IUniswapSumVolumeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IUniswapSumVolumeCallerSession{Contract: &x.IUniswapSumVolumeCaller, CallOpts: co},
				"transactorSession": &eth.IUniswapSumVolumeTransactorSession{Contract: &x.IUniswapSumVolumeTransactor, TransactOpts: to},
				"raw":               &eth.IUniswapSumVolumeRaw{Contract: x},
				"callerRaw":         &eth.IUniswapSumVolumeCallerRaw{Contract: &x.IUniswapSumVolumeCaller},
				"transactorRaw":     &eth.IUniswapSumVolumeTransactorRaw{Contract: &x.IUniswapSumVolumeTransactor},
			}
		},
	},
	{
		name: "eth.IVerifier", meta: eth.IVerifierMetaData, abi: &eth.IVerifierABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIVerifier(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIVerifierTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIVerifierFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IVerifier)
			return map[string]any{
				"session":           &eth.IVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IVerifierCallerSession{Contract: &x.IVerifierCaller, CallOpts: co},
				"transactorSession": &eth.IVerifierTransactorSession{Contract: &x.IVerifierTransactor, TransactOpts: to},
				"raw":               &eth.IVerifierRaw{Contract: x},
				"callerRaw":         &eth.IVerifierCallerRaw{Contract: &x.IVerifierCaller},
				"transactorRaw":     &eth.IVerifierTransactorRaw{Contract: &x.IVerifierTransactor},
			}
		},
	},
	{
		name: "eth.IZkpVerifier", meta: eth.IZkpVerifierMetaData, abi: &eth.IZkpVerifierABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIZkpVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIZkpVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewIZkpVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewIZkpVerifierFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.IZkpVerifier)
			return map[string]any{
				"session":           &eth.IZkpVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.IZkpVerifierCallerSession{Contract: &x.IZkpVerifierCaller, CallOpts: co},
				"transactorSession": &eth.IZkpVerifierTransactorSession{Contract: &x.IZkpVerifierTransactor, TransactOpts: to},
				"raw":               &eth.IZkpVerifierRaw{Contract: x},
				"callerRaw":         &eth.IZkpVerifierCallerRaw{Contract: &x.IZkpVerifierCaller},
				"transactorRaw":     &eth.IZkpVerifierTransactorRaw{Contract: &x.IZkpVerifierTransactor},
			}
		},
	},
	{
		name: "eth.LightClientStore", meta: eth.LightClientStoreMetaData, abi: &eth.LightClientStoreABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewLightClientStore(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewLightClientStoreCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewLightClientStoreTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewLightClientStoreFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.LightClientStore)
			return map[string]any{
				"session":           &eth.LightClientStoreSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.LightClientStoreCallerSession{Contract: &x.LightClientStoreCaller, CallOpts: co},
				"transactorSession": &eth.LightClientStoreTransactorSession{Contract: &x.LightClientStoreTransactor, TransactOpts: to},
				"raw":               &eth.LightClientStoreRaw{Contract: x},
				"callerRaw":         &eth.LightClientStoreCallerRaw{Contract: &x.LightClientStoreCaller},
				"transactorRaw":     &eth.LightClientStoreTransactorRaw{Contract: &x.LightClientStoreTransactor},
			}
		},
	},
	{
		name: "eth.MerkleProofTree", meta: eth.MerkleProofTreeMetaData, abi: &eth.MerkleProofTreeABI, bin: eth.MerkleProofTreeBin, deploy: eth.DeployMerkleProofTree,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMerkleProofTree(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMerkleProofTreeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMerkleProofTreeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMerkleProofTreeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MerkleProofTree)
			return map[string]any{
				"session":           &eth.MerkleProofTreeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MerkleProofTreeCallerSession{Contract: &x.MerkleProofTreeCaller, CallOpts: co},
				"transactorSession": &eth.MerkleProofTreeTransactorSession{Contract: &x.MerkleProofTreeTransactor, TransactOpts: to},
				"raw":               &eth.MerkleProofTreeRaw{Contract: x},
				"callerRaw":         &eth.MerkleProofTreeCallerRaw{Contract: &x.MerkleProofTreeCaller},
				"transactorRaw":     &eth.MerkleProofTreeTransactorRaw{Contract: &x.MerkleProofTreeTransactor},
			}
		},
	},
	{
		name: "eth.MessageApp", meta: eth.MessageAppMetaData, abi: &eth.MessageAppABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageApp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageAppCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageAppTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageAppFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MessageApp)
			return map[string]any{
				"session":           &eth.MessageAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MessageAppCallerSession{Contract: &x.MessageAppCaller, CallOpts: co},
				"transactorSession": &eth.MessageAppTransactorSession{Contract: &x.MessageAppTransactor, TransactOpts: to},
				"raw":               &eth.MessageAppRaw{Contract: x},
				"callerRaw":         &eth.MessageAppCallerRaw{Contract: &x.MessageAppCaller},
				"transactorRaw":     &eth.MessageAppTransactorRaw{Contract: &x.MessageAppTransactor},
			}
		},
	},
	{
		name: "eth.MessageBridge", meta: eth.MessageBridgeMetaData, abi: &eth.MessageBridgeABI, bin: eth.MessageBridgeBin, deploy: eth.DeployMessageBridge,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageBridge(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageBridgeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageBridgeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageBridgeFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MessageBridge)
			return map[string]any{
				"session":           &eth.MessageBridgeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MessageBridgeCallerSession{Contract: &x.MessageBridgeCaller, CallOpts: co},
				"transactorSession": &eth.MessageBridgeTransactorSession{Contract: &x.MessageBridgeTransactor, TransactOpts: to},
				"raw":               &eth.MessageBridgeRaw{Contract: x},
				"callerRaw":         &eth.MessageBridgeCallerRaw{Contract: &x.MessageBridgeCaller},
				"transactorRaw":     &eth.MessageBridgeTransactorRaw{Contract: &x.MessageBridgeTransactor},
			}
		},
	},
	{
		name: "eth.MessageBridgeAddress", meta: eth.MessageBridgeAddressMetaData, abi: &eth.MessageBridgeAddressABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageBridgeAddress(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageBridgeAddressCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageBridgeAddressTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageBridgeAddressFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MessageBridgeAddress)
			return map[string]any{
				"session":           &eth.MessageBridgeAddressSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MessageBridgeAddressCallerSession{Contract: &x.MessageBridgeAddressCaller, CallOpts: co},
				"transactorSession": &eth.MessageBridgeAddressTransactorSession{Contract: &x.MessageBridgeAddressTransactor, TransactOpts: to},
				"raw":               &eth.MessageBridgeAddressRaw{Contract: x},
				"callerRaw":         &eth.MessageBridgeAddressCallerRaw{Contract: &x.MessageBridgeAddressCaller},
				"transactorRaw":     &eth.MessageBridgeAddressTransactorRaw{Contract: &x.MessageBridgeAddressTransactor},
			}
		},
	},
	{
		name: "eth.MessageReceiverApp", meta: eth.MessageReceiverAppMetaData, abi: &eth.MessageReceiverAppABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageReceiverApp(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageReceiverAppCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageReceiverAppTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageReceiverAppFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MessageReceiverApp)
			return map[string]any{
				"session":           &eth.MessageReceiverAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MessageReceiverAppCallerSession{Contract: &x.MessageReceiverAppCaller, CallOpts: co},
				"transactorSession": &eth.MessageReceiverAppTransactorSession{Contract: &x.MessageReceiverAppTransactor, TransactOpts: to},
				"raw":               &eth.MessageReceiverAppRaw{Contract: x},
				"callerRaw":         &eth.MessageReceiverAppCallerRaw{Contract: &x.MessageReceiverAppCaller},
				"transactorRaw":     &eth.MessageReceiverAppTransactorRaw{Contract: &x.MessageReceiverAppTransactor},
			}
		},
	},
	{
		name: "eth.MessageSenderApp", meta: eth.MessageSenderAppMetaData, abi: &eth.MessageSenderAppABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMessageSenderApp(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageSenderAppCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageSenderAppTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMessageSenderAppFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MessageSenderApp)
			return map[string]any{
				"session":           &eth.MessageSenderAppSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MessageSenderAppCallerSession{Contract: &x.MessageSenderAppCaller, CallOpts: co},
				"transactorSession": &eth.MessageSenderAppTransactorSession{Contract: &x.MessageSenderAppTransactor, TransactOpts: to},
				"raw":               &eth.MessageSenderAppRaw{Contract: x},
				"callerRaw":         &eth.MessageSenderAppCallerRaw{Contract: &x.MessageSenderAppCaller},
				"transactorRaw":     &eth.MessageSenderAppTransactorRaw{Contract: &x.MessageSenderAppTransactor},
			}
		},
	},
	{
		name: "eth.MintableERC20", meta: eth.MintableERC20MetaData, abi: &eth.MintableERC20ABI, bin: eth.MintableERC20Bin, deploy: eth.DeployMintableERC20,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMintableERC20(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMintableERC20Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMintableERC20Transactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMintableERC20Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MintableERC20)
			return map[string]any{
				"session":           &eth.MintableERC20Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MintableERC20CallerSession{Contract: &x.MintableERC20Caller, CallOpts: co},
				"transactorSession": &eth.MintableERC20TransactorSession{Contract: &x.MintableERC20Transactor, TransactOpts: to},
				"raw":               &eth.MintableERC20Raw{Contract: x},
				"callerRaw":         &eth.MintableERC20CallerRaw{Contract: &x.MintableERC20Caller},
				"transactorRaw":     &eth.MintableERC20TransactorRaw{Contract: &x.MintableERC20Transactor},
			}
		},
	},
	{
		name: "eth.MockUniswapSumVolume", meta: eth.MockUniswapSumVolumeMetaData, abi: &eth.MockUniswapSumVolumeABI, bin: eth.MockUniswapSumVolumeBin, deploy: eth.DeployMockUniswapSumVolume,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMockUniswapSumVolume(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMockUniswapSumVolumeCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMockUniswapSumVolumeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewMockUniswapSumVolumeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MockUniswapSumVolume)
			return map[string]any{
				"session":           &eth.MockUniswapSumVolumeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MockUniswapSumVolumeCallerSession{Contract: &x.MockUniswapSumVolumeCaller, CallOpts: co},
				"transactorSession": &eth.MockUniswapSumVolumeTransactorSession{Contract: &x.MockUniswapSumVolumeTransactor, TransactOpts: to},
				"raw":               &eth.MockUniswapSumVolumeRaw{Contract: x},
				"callerRaw":         &eth.MockUniswapSumVolumeCallerRaw{Contract: &x.MockUniswapSumVolumeCaller},
				"transactorRaw":     &eth.MockUniswapSumVolumeTransactorRaw{Contract: &x.MockUniswapSumVolumeTransactor},
			}
		},
	},
	{
		name: "eth.MsgLib", meta: eth.MsgLibMetaData, abi: &eth.MsgLibABI, bin: eth.MsgLibBin, deploy: eth.DeployMsgLib,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgLib(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgLibCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgLibTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgLibFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MsgLib)
			return map[string]any{
				"session":           &eth.MsgLibSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MsgLibCallerSession{Contract: &x.MsgLibCaller, CallOpts: co},
				"transactorSession": &eth.MsgLibTransactorSession{Contract: &x.MsgLibTransactor, TransactOpts: to},
				"raw":               &eth.MsgLibRaw{Contract: x},
				"callerRaw":         &eth.MsgLibCallerRaw{Contract: &x.MsgLibCaller},
				"transactorRaw":     &eth.MsgLibTransactorRaw{Contract: &x.MsgLibTransactor},
			}
		},
	},
	{
		name: "eth.MsgReceiver", meta: eth.MsgReceiverMetaData, abi: &eth.MsgReceiverABI, bin: eth.MsgReceiverBin, deploy: eth.DeployMsgReceiver,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgReceiver(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgReceiverCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgReceiverTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgReceiverFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MsgReceiver)
			return map[string]any{
				"session":           &eth.MsgReceiverSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MsgReceiverCallerSession{Contract: &x.MsgReceiverCaller, CallOpts: co},
				"transactorSession": &eth.MsgReceiverTransactorSession{Contract: &x.MsgReceiverTransactor, TransactOpts: to},
				"raw":               &eth.MsgReceiverRaw{Contract: x},
				"callerRaw":         &eth.MsgReceiverCallerRaw{Contract: &x.MsgReceiverCaller},
				"transactorRaw":     &eth.MsgReceiverTransactorRaw{Contract: &x.MsgReceiverTransactor},
			}
		},
	},
	{
		name: "eth.MsgSender", meta: eth.MsgSenderMetaData, abi: &eth.MsgSenderABI, bin: eth.MsgSenderBin, deploy: eth.DeployMsgSender,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgSender(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgSenderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgSenderTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewMsgSenderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.MsgSender)
			return map[string]any{
				"session":           &eth.MsgSenderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.MsgSenderCallerSession{Contract: &x.MsgSenderCaller, CallOpts: co},
				"transactorSession": &eth.MsgSenderTransactorSession{Contract: &x.MsgSenderTransactor, TransactOpts: to},
				"raw":               &eth.MsgSenderRaw{Contract: x},
				"callerRaw":         &eth.MsgSenderCallerRaw{Contract: &x.MsgSenderCaller},
				"transactorRaw":     &eth.MsgSenderTransactorRaw{Contract: &x.MsgSenderTransactor},
			}
		},
	},
	{
		name: "eth.Ownable", meta: eth.OwnableMetaData, abi: &eth.OwnableABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewOwnable(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewOwnableCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewOwnableTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewOwnableFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Ownable)
			return map[string]any{
				"session":           &eth.OwnableSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.OwnableCallerSession{Contract: &x.OwnableCaller, CallOpts: co},
				"transactorSession": &eth.OwnableTransactorSession{Contract: &x.OwnableTransactor, TransactOpts: to},
				"raw":               &eth.OwnableRaw{Contract: x},
				"callerRaw":         &eth.OwnableCallerRaw{Contract: &x.OwnableCaller},
				"transactorRaw":     &eth.OwnableTransactorRaw{Contract: &x.OwnableTransactor},
			}
		},
	},
	{
		name: "eth.Pairing", meta: eth.PairingMetaData, abi: &eth.PairingABI, bin: eth.PairingBin, deploy: eth.DeployPairing,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPairing(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPairingCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPairingTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPairingFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Pairing)
			return map[string]any{
				"session":           &eth.PairingSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PairingCallerSession{Contract: &x.PairingCaller, CallOpts: co},
				"transactorSession": &eth.PairingTransactorSession{Contract: &x.PairingTransactor, TransactOpts: to},
				"raw":               &eth.PairingRaw{Contract: x},
				"callerRaw":         &eth.PairingCallerRaw{Contract: &x.PairingCaller},
				"transactorRaw":     &eth.PairingTransactorRaw{Contract: &x.PairingTransactor},
			}
		},
	},
	{
		name: "eth.Pausable", meta: eth.PausableMetaData, abi: &eth.PausableABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPausable(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPausableCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPausableTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPausableFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Pausable)
			return map[string]any{
				"session":           &eth.PausableSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PausableCallerSession{Contract: &x.PausableCaller, CallOpts: co},
				"transactorSession": &eth.PausableTransactorSession{Contract: &x.PausableTransactor, TransactOpts: to},
				"raw":               &eth.PausableRaw{Contract: x},
				"callerRaw":         &eth.PausableCallerRaw{Contract: &x.PausableCaller},
				"transactorRaw":     &eth.PausableTransactorRaw{Contract: &x.PausableTransactor},
			}
		},
	},
	{
		name: "eth.Pauser", meta: eth.PauserMetaData, abi: &eth.PauserABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPauser(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPauserCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPauserTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPauserFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Pauser)
			return map[string]any{
				"session":           &eth.PauserSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PauserCallerSession{Contract: &x.PauserCaller, CallOpts: co},
				"transactorSession": &eth.PauserTransactorSession{Contract: &x.PauserTransactor, TransactOpts: to},
				"raw":               &eth.PauserRaw{Contract: x},
				"callerRaw":         &eth.PauserCallerRaw{Contract: &x.PauserCaller},
				"transactorRaw":     &eth.PauserTransactorRaw{Contract: &x.PauserTransactor},
			}
		},
	},
	{
		name: "eth.PegBridge", meta: eth.PegBridgeMetaData, abi: &eth.PegBridgeABI, bin: eth.PegBridgeBin, deploy: eth.DeployPegBridge,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPegBridge(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPegBridgeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPegBridgeTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPegBridgeFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.PegBridge)
			return map[string]any{
				"session":           &eth.PegBridgeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PegBridgeCallerSession{Contract: &x.PegBridgeCaller, CallOpts: co},
				"transactorSession": &eth.PegBridgeTransactorSession{Contract: &x.PegBridgeTransactor, TransactOpts: to},
				"raw":               &eth.PegBridgeRaw{Contract: x},
				"callerRaw":         &eth.PegBridgeCallerRaw{Contract: &x.PegBridgeCaller},
				"transactorRaw":     &eth.PegBridgeTransactorRaw{Contract: &x.PegBridgeTransactor},
			}
		},
	},
	{
		name: "eth.Pool", meta: eth.PoolMetaData, abi: &eth.PoolABI, bin: eth.PoolBin, deploy: eth.DeployPool,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPool(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPoolCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPoolTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPoolFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Pool)
			return map[string]any{
				"session":           &eth.PoolSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PoolCallerSession{Contract: &x.PoolCaller, CallOpts: co},
				"transactorSession": &eth.PoolTransactorSession{Contract: &x.PoolTransactor, TransactOpts: to},
				"raw":               &eth.PoolRaw{Contract: x},
				"callerRaw":         &eth.PoolCallerRaw{Contract: &x.PoolCaller},
				"transactorRaw":     &eth.PoolTransactorRaw{Contract: &x.PoolTransactor},
			}
		},
	},
	{
		name: "eth.PoolIdLibrary", meta: eth.PoolIdLibraryMetaData, abi: &eth.PoolIdLibraryABI, bin: eth.PoolIdLibraryBin, deploy: eth.DeployPoolIdLibrary,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPoolIdLibrary(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPoolIdLibraryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewPoolIdLibraryTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPoolIdLibraryFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.PoolIdLibrary)
			return map[string]any{
				"session":           &eth.PoolIdLibrarySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PoolIdLibraryCallerSession{Contract: &x.PoolIdLibraryCaller, CallOpts: co},
				"transactorSession": &eth.PoolIdLibraryTransactorSession{Contract: &x.PoolIdLibraryTransactor, TransactOpts: to},
				"raw":               &eth.PoolIdLibraryRaw{Contract: x},
				"callerRaw":         &eth.PoolIdLibraryCallerRaw{Contract: &x.PoolIdLibraryCaller},
				"transactorRaw":     &eth.PoolIdLibraryTransactorRaw{Contract: &x.PoolIdLibraryTransactor},
			}
		},
	},
	{
		name: "eth.Position", meta: eth.PositionMetaData, abi: &eth.PositionABI, bin: eth.PositionBin, deploy: eth.DeployPosition,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPosition(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPositionCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPositionTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewPositionFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Position)
			return map[string]any{
				"session":           &eth.PositionSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.PositionCallerSession{Contract: &x.PositionCaller, CallOpts: co},
				"transactorSession": &eth.PositionTransactorSession{Contract: &x.PositionTransactor, TransactOpts: to},
				"raw":               &eth.PositionRaw{Contract: x},
				"callerRaw":         &eth.PositionCallerRaw{Contract: &x.PositionCaller},
				"transactorRaw":     &eth.PositionTransactorRaw{Contract: &x.PositionTransactor},
			}
		},
	},
	{
		name: "eth.RLPReader", meta: eth.RLPReaderMetaData, abi: &eth.RLPReaderABI, bin: eth.RLPReaderBin, deploy: eth.DeployRLPReader,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewRLPReader(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewRLPReaderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewRLPReaderTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewRLPReaderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.RLPReader)
			return map[string]any{
				"session":           &eth.RLPReaderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.RLPReaderCallerSession{Contract: &x.RLPReaderCaller, CallOpts: co},
				"transactorSession": &eth.RLPReaderTransactorSession{Contract: &x.RLPReaderTransactor, TransactOpts: to},
				"raw":               &eth.RLPReaderRaw{Contract: x},
				"callerRaw":         &eth.RLPReaderCallerRaw{Contract: &x.RLPReaderCaller},
				"transactorRaw":     &eth.RLPReaderTransactorRaw{Contract: &x.RLPReaderTransactor},
			}
		},
	},
	{
		name: "eth.ReceiptVerifier", meta: eth.ReceiptVerifierMetaData, abi: &eth.ReceiptVerifierABI, bin: eth.ReceiptVerifierBin, deploy: eth.DeployReceiptVerifier,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewReceiptVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewReceiptVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewReceiptVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewReceiptVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ReceiptVerifier)
			return map[string]any{
				"session":           &eth.ReceiptVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ReceiptVerifierCallerSession{Contract: &x.ReceiptVerifierCaller, CallOpts: co},
				"transactorSession": &eth.ReceiptVerifierTransactorSession{Contract: &x.ReceiptVerifierTransactor, TransactOpts: to},
				"raw":               &eth.ReceiptVerifierRaw{Contract: x},
				"callerRaw":         &eth.ReceiptVerifierCallerRaw{Contract: &x.ReceiptVerifierCaller},
				"transactorRaw":     &eth.ReceiptVerifierTransactorRaw{Contract: &x.ReceiptVerifierTransactor},
			}
		},
	},
	{
		name: "eth.ReentrancyGuard", meta: eth.ReentrancyGuardMetaData, abi: &eth.ReentrancyGuardABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewReentrancyGuard(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewReentrancyGuardCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewReentrancyGuardTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewReentrancyGuardFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.ReentrancyGuard)
			return map[string]any{
				"session":           &eth.ReentrancyGuardSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.ReentrancyGuardCallerSession{Contract: &x.ReentrancyGuardCaller, CallOpts: co},
				"transactorSession": &eth.ReentrancyGuardTransactorSession{Contract: &x.ReentrancyGuardTransactor, TransactOpts: to},
				"raw":               &eth.ReentrancyGuardRaw{Contract: x},
				"callerRaw":         &eth.ReentrancyGuardCallerRaw{Contract: &x.ReentrancyGuardCaller},
				"transactorRaw":     &eth.ReentrancyGuardTransactorRaw{Contract: &x.ReentrancyGuardTransactor},
			}
		},
	},
	{
		name: "eth.SMT", meta: eth.SMTMetaData, abi: &eth.SMTABI, bin: eth.SMTBin, deploy: eth.DeploySMT,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSMT(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSMTCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSMTTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSMTFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SMT)
			return map[string]any{
				"session":           &eth.SMTSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SMTCallerSession{Contract: &x.SMTCaller, CallOpts: co},
				"transactorSession": &eth.SMTTransactorSession{Contract: &x.SMTTransactor, TransactOpts: to},
				"raw":               &eth.SMTRaw{Contract: x},
				"callerRaw":         &eth.SMTCallerRaw{Contract: &x.SMTCaller},
				"transactorRaw":     &eth.SMTTransactorRaw{Contract: &x.SMTTransactor},
			}
		},
	},
	{
		name: "eth.SafeCast", meta: eth.SafeCastMetaData, abi: &eth.SafeCastABI, bin: eth.SafeCastBin, deploy: eth.DeploySafeCast,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeCast(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeCastCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeCastTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeCastFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SafeCast)
			return map[string]any{
				"session":           &eth.SafeCastSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SafeCastCallerSession{Contract: &x.SafeCastCaller, CallOpts: co},
				"transactorSession": &eth.SafeCastTransactorSession{Contract: &x.SafeCastTransactor, TransactOpts: to},
				"raw":               &eth.SafeCastRaw{Contract: x},
				"callerRaw":         &eth.SafeCastCallerRaw{Contract: &x.SafeCastCaller},
				"transactorRaw":     &eth.SafeCastTransactorRaw{Contract: &x.SafeCastTransactor},
			}
		},
	},
	{
		name: "eth.SafeERC20", meta: eth.SafeERC20MetaData, abi: &eth.SafeERC20ABI, bin: eth.SafeERC20Bin, deploy: eth.DeploySafeERC20,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeERC20(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeERC20Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeERC20Transactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSafeERC20Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SafeERC20)
			return map[string]any{
				"session":           &eth.SafeERC20Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SafeERC20CallerSession{Contract: &x.SafeERC20Caller, CallOpts: co},
				"transactorSession": &eth.SafeERC20TransactorSession{Contract: &x.SafeERC20Transactor, TransactOpts: to},
				"raw":               &eth.SafeERC20Raw{Contract: x},
				"callerRaw":         &eth.SafeERC20CallerRaw{Contract: &x.SafeERC20Caller},
				"transactorRaw":     &eth.SafeERC20TransactorRaw{Contract: &x.SafeERC20Transactor},
			}
		},
	},
	{
		name: "eth.SameChainAnchorBlocks", meta: eth.SameChainAnchorBlocksMetaData, abi: &eth.SameChainAnchorBlocksABI, bin: eth.SameChainAnchorBlocksBin, deploy: eth.DeploySameChainAnchorBlocks,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSameChainAnchorBlocks(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSameChainAnchorBlocksCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSameChainAnchorBlocksTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSameChainAnchorBlocksFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SameChainAnchorBlocks)
			return map[string]any{
				"session":           &eth.SameChainAnchorBlocksSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SameChainAnchorBlocksCallerSession{Contract: &x.SameChainAnchorBlocksCaller, CallOpts: co},
				"transactorSession": &eth.SameChainAnchorBlocksTransactorSession{Contract: &x.SameChainAnchorBlocksTransactor, TransactOpts: to},
				"raw":               &eth.SameChainAnchorBlocksRaw{Contract: x},
				"callerRaw":         &eth.SameChainAnchorBlocksCallerRaw{Contract: &x.SameChainAnchorBlocksCaller},
				"transactorRaw":     &eth.SameChainAnchorBlocksTransactorRaw{Contract: &x.SameChainAnchorBlocksTransactor},
			}
		},
	},
	{
		name: "eth.SlotValue", meta: eth.SlotValueMetaData, abi: &eth.SlotValueABI, bin: eth.SlotValueBin, deploy: eth.DeploySlotValue,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSlotValue(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSlotValueCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSlotValueTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSlotValueFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SlotValue)
			return map[string]any{
				"session":           &eth.SlotValueSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SlotValueCallerSession{Contract: &x.SlotValueCaller, CallOpts: co},
				"transactorSession": &eth.SlotValueTransactorSession{Contract: &x.SlotValueTransactor, TransactOpts: to},
				"raw":               &eth.SlotValueRaw{Contract: x},
				"callerRaw":         &eth.SlotValueCallerRaw{Contract: &x.SlotValueCaller},
				"transactorRaw":     &eth.SlotValueTransactorRaw{Contract: &x.SlotValueTransactor},
			}
		},
	},
	{
		name: "eth.SlotValueVerifier", meta: eth.SlotValueVerifierMetaData, abi: &eth.SlotValueVerifierABI, bin: eth.SlotValueVerifierBin, deploy: eth.DeploySlotValueVerifier,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSlotValueVerifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSlotValueVerifierCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSlotValueVerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSlotValueVerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SlotValueVerifier)
			return map[string]any{
				"session":           &eth.SlotValueVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SlotValueVerifierCallerSession{Contract: &x.SlotValueVerifierCaller, CallOpts: co},
				"transactorSession": &eth.SlotValueVerifierTransactorSession{Contract: &x.SlotValueVerifierTransactor, TransactOpts: to},
				"raw":               &eth.SlotValueVerifierRaw{Contract: x},
				"callerRaw":         &eth.SlotValueVerifierCallerRaw{Contract: &x.SlotValueVerifierCaller},
				"transactorRaw":     &eth.SlotValueVerifierTransactorRaw{Contract: &x.SlotValueVerifierTransactor},
			}
		},
	},
	{
		name: "eth.SqrtPriceMath", meta: eth.SqrtPriceMathMetaData, abi: &eth.SqrtPriceMathABI, bin: eth.SqrtPriceMathBin, deploy: eth.DeploySqrtPriceMath,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSqrtPriceMath(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSqrtPriceMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewSqrtPriceMathTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSqrtPriceMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SqrtPriceMath)
			return map[string]any{
				"session":           &eth.SqrtPriceMathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SqrtPriceMathCallerSession{Contract: &x.SqrtPriceMathCaller, CallOpts: co},
				"transactorSession": &eth.SqrtPriceMathTransactorSession{Contract: &x.SqrtPriceMathTransactor, TransactOpts: to},
				"raw":               &eth.SqrtPriceMathRaw{Contract: x},
				"callerRaw":         &eth.SqrtPriceMathCallerRaw{Contract: &x.SqrtPriceMathCaller},
				"transactorRaw":     &eth.SqrtPriceMathTransactorRaw{Contract: &x.SqrtPriceMathTransactor},
			}
		},
	},
	{
		name: "eth.Strings", meta: eth.StringsMetaData, abi: &eth.StringsABI, bin: eth.StringsBin, deploy: eth.DeployStrings,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewStrings(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewStringsCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewStringsTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewStringsFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Strings)
			return map[string]any{
				"session":           &eth.StringsSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.StringsCallerSession{Contract: &x.StringsCaller, CallOpts: co},
				"transactorSession": &eth.StringsTransactorSession{Contract: &x.StringsTransactor, TransactOpts: to},
				"raw":               &eth.StringsRaw{Contract: x},
				"callerRaw":         &eth.StringsCallerRaw{Contract: &x.StringsCaller},
				"transactorRaw":     &eth.StringsTransactorRaw{Contract: &x.StringsTransactor},
			}
		},
	},
	{
		name: "eth.SwapMath", meta: eth.SwapMathMetaData, abi: &eth.SwapMathABI, bin: eth.SwapMathBin, deploy: eth.DeploySwapMath,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSwapMath(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSwapMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSwapMathTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewSwapMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.SwapMath)
			return map[string]any{
				"session":           &eth.SwapMathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.SwapMathCallerSession{Contract: &x.SwapMathCaller, CallOpts: co},
				"transactorSession": &eth.SwapMathTransactorSession{Contract: &x.SwapMathTransactor, TransactOpts: to},
				"raw":               &eth.SwapMathRaw{Contract: x},
				"callerRaw":         &eth.SwapMathCallerRaw{Contract: &x.SwapMathCaller},
				"transactorRaw":     &eth.SwapMathTransactorRaw{Contract: &x.SwapMathTransactor},
			}
		},
	},
	{
		name: "eth.TestSMT", meta: eth.TestSMTMetaData, abi: &eth.TestSMTABI, bin: eth.TestSMTBin, deploy: eth.DeployTestSMT,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTestSMT(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTestSMTCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTestSMTTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTestSMTFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TestSMT)
			return map[string]any{
				"session":           &eth.TestSMTSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TestSMTCallerSession{Contract: &x.TestSMTCaller, CallOpts: co},
				"transactorSession": &eth.TestSMTTransactorSession{Contract: &x.TestSMTTransactor, TransactOpts: to},
				"raw":               &eth.TestSMTRaw{Contract: x},
				"callerRaw":         &eth.TestSMTCallerRaw{Contract: &x.TestSMTCaller},
				"transactorRaw":     &eth.TestSMTTransactorRaw{Contract: &x.TestSMTTransactor},
			}
		},
	},
	{
		name: "eth.TickBitmap", meta: eth.TickBitmapMetaData, abi: &eth.TickBitmapABI, bin: eth.TickBitmapBin, deploy: eth.DeployTickBitmap,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickBitmap(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickBitmapCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickBitmapTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickBitmapFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TickBitmap)
			return map[string]any{
				"session":           &eth.TickBitmapSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TickBitmapCallerSession{Contract: &x.TickBitmapCaller, CallOpts: co},
				"transactorSession": &eth.TickBitmapTransactorSession{Contract: &x.TickBitmapTransactor, TransactOpts: to},
				"raw":               &eth.TickBitmapRaw{Contract: x},
				"callerRaw":         &eth.TickBitmapCallerRaw{Contract: &x.TickBitmapCaller},
				"transactorRaw":     &eth.TickBitmapTransactorRaw{Contract: &x.TickBitmapTransactor},
			}
		},
	},
	{
		name: "eth.TickMath", meta: eth.TickMathMetaData, abi: &eth.TickMathABI, bin: eth.TickMathBin, deploy: eth.DeployTickMath,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickMath(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickMathTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTickMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TickMath)
			return map[string]any{
				"session":           &eth.TickMathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TickMathCallerSession{Contract: &x.TickMathCaller, CallOpts: co},
				"transactorSession": &eth.TickMathTransactorSession{Contract: &x.TickMathTransactor, TransactOpts: to},
				"raw":               &eth.TickMathRaw{Contract: x},
				"callerRaw":         &eth.TickMathCallerRaw{Contract: &x.TickMathCaller},
				"transactorRaw":     &eth.TickMathTransactorRaw{Contract: &x.TickMathTransactor},
			}
		},
	},
	{
		name: "eth.TierFactory", meta: eth.TierFactoryMetaData, abi: &eth.TierFactoryABI, bin: eth.TierFactoryBin, deploy: eth.DeployTierFactory,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierFactory(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierFactoryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierFactoryTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierFactoryFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TierFactory)
			return map[string]any{
				"session":           &eth.TierFactorySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TierFactoryCallerSession{Contract: &x.TierFactoryCaller, CallOpts: co},
				"transactorSession": &eth.TierFactoryTransactorSession{Contract: &x.TierFactoryTransactor, TransactOpts: to},
				"raw":               &eth.TierFactoryRaw{Contract: x},
				"callerRaw":         &eth.TierFactoryCallerRaw{Contract: &x.TierFactoryCaller},
				"transactorRaw":     &eth.TierFactoryTransactorRaw{Contract: &x.TierFactoryTransactor},
			}
		},
	},
	{
		name: "eth.TierHook", meta: eth.TierHookMetaData, abi: &eth.TierHookABI, bin: eth.TierHookBin, deploy: eth.DeployTierHook,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierHook(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierHookCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierHookTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTierHookFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TierHook)
			return map[string]any{
				"session":           &eth.TierHookSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TierHookCallerSession{Contract: &x.TierHookCaller, CallOpts: co},
				"transactorSession": &eth.TierHookTransactorSession{Contract: &x.TierHookTransactor, TransactOpts: to},
				"raw":               &eth.TierHookRaw{Contract: x},
				"callerRaw":         &eth.TierHookCallerRaw{Contract: &x.TierHookCaller},
				"transactorRaw":     &eth.TierHookTransactorRaw{Contract: &x.TierHookTransactor},
			}
		},
	},
	{
		name: "eth.TokenVault", meta: eth.TokenVaultMetaData, abi: &eth.TokenVaultABI, bin: eth.TokenVaultBin, deploy: eth.DeployTokenVault,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTokenVault(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTokenVaultCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTokenVaultTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTokenVaultFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TokenVault)
			return map[string]any{
				"session":           &eth.TokenVaultSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TokenVaultCallerSession{Contract: &x.TokenVaultCaller, CallOpts: co},
				"transactorSession": &eth.TokenVaultTransactorSession{Contract: &x.TokenVaultTransactor, TransactOpts: to},
				"raw":               &eth.TokenVaultRaw{Contract: x},
				"callerRaw":         &eth.TokenVaultCallerRaw{Contract: &x.TokenVaultCaller},
				"transactorRaw":     &eth.TokenVaultTransactorRaw{Contract: &x.TokenVaultTransactor},
			}
		},
	},
	{
		name: "eth.Tx", meta: eth.TxMetaData, abi: &eth.TxABI, bin: eth.TxBin, deploy: eth.DeployTx,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTx(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Tx)
			return map[string]any{
				"session":           &eth.TxSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TxCallerSession{Contract: &x.TxCaller, CallOpts: co},
				"transactorSession": &eth.TxTransactorSession{Contract: &x.TxTransactor, TransactOpts: to},
				"raw":               &eth.TxRaw{Contract: x},
				"callerRaw":         &eth.TxCallerRaw{Contract: &x.TxCaller},
				"transactorRaw":     &eth.TxTransactorRaw{Contract: &x.TxTransactor},
			}
		},
	},
	{
		name: "eth.TxVerifier", meta: eth.TxVerifierMetaData, abi: &eth.TxVerifierABI, bin: eth.TxVerifierBin, deploy: eth.DeployTxVerifier,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxVerifier(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxVerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxVerifierTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewTxVerifierFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.TxVerifier)
			return map[string]any{
				"session":           &eth.TxVerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.TxVerifierCallerSession{Contract: &x.TxVerifierCaller, CallOpts: co},
				"transactorSession": &eth.TxVerifierTransactorSession{Contract: &x.TxVerifierTransactor, TransactOpts: to},
				"raw":               &eth.TxVerifierRaw{Contract: x},
				"callerRaw":         &eth.TxVerifierCallerRaw{Contract: &x.TxVerifierCaller},
				"transactorRaw":     &eth.TxVerifierTransactorRaw{Contract: &x.TxVerifierTransactor},
			}
		},
	},
	{
		name: "eth.UniswapSumVolume", meta: eth.UniswapSumVolumeMetaData, abi: &eth.UniswapSumVolumeABI, bin: eth.UniswapSumVolumeBin, deploy: eth.DeployUniswapSumVolume,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUniswapSumVolume(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewUniswapSumVolumeCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewUniswapSumVolumeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return eth.NewUniswapSumVolumeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.UniswapSumVolume)
			return map[string]any{
				"session":           &eth.UniswapSumVolumeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.UniswapSumVolumeCallerSession{Contract: &x.UniswapSumVolumeCaller, CallOpts: co},
				"transactorSession": &eth.UniswapSumVolumeTransactorSession{Contract: &x.UniswapSumVolumeTransactor, TransactOpts: to},
				"raw":               &eth.UniswapSumVolumeRaw{Contract: x},
				"callerRaw":         &eth.UniswapSumVolumeCallerRaw{Contract: &x.UniswapSumVolumeCaller},
				"transactorRaw":     &eth.UniswapSumVolumeTransactorRaw{Contract: &x.UniswapSumVolumeTransactor},
			}
		},
	},
	{
		name: "eth.UnsafeMath", meta: eth.UnsafeMathMetaData, abi: &eth.UnsafeMathABI, bin: eth.UnsafeMathBin, deploy: eth.DeployUnsafeMath,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUnsafeMath(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUnsafeMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUnsafeMathTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUnsafeMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.UnsafeMath)
			return map[string]any{
				"session":           &eth.UnsafeMathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.UnsafeMathCallerSession{Contract: &x.UnsafeMathCaller, CallOpts: co},
				"transactorSession": &eth.UnsafeMathTransactorSession{Contract: &x.UnsafeMathTransactor, TransactOpts: to},
				"raw":               &eth.UnsafeMathRaw{Contract: x},
				"callerRaw":         &eth.UnsafeMathCallerRaw{Contract: &x.UnsafeMathCaller},
				"transactorRaw":     &eth.UnsafeMathTransactorRaw{Contract: &x.UnsafeMathTransactor},
			}
		},
	},
	{
		name: "eth.Utils", meta: eth.UtilsMetaData, abi: &eth.UtilsABI, bin: eth.UtilsBin, deploy: eth.DeployUtils,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUtils(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUtilsCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUtilsTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return eth.NewUtilsFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*eth.Utils)
			return map[string]any{
				"session":           &eth.UtilsSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &eth.UtilsCallerSession{Contract: &x.UtilsCaller, CallOpts: co},
				"transactorSession": &eth.UtilsTransactorSession{Contract: &x.UtilsTransactor, TransactOpts: to},
				"raw":               &eth.UtilsRaw{Contract: x},
				"callerRaw":         &eth.UtilsCallerRaw{Contract: &x.UtilsCaller},
				"transactorRaw":     &eth.UtilsTransactorRaw{Contract: &x.UtilsTransactor},
			}
		},
	},
	{
		name: "bsc.BSCValidatorSet", meta: bsc.BSCValidatorSetMetaData, abi: &bsc.BSCValidatorSetABI, bin: bsc.BSCValidatorSetBin, deploy: bsc.DeployBSCValidatorSet,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBSCValidatorSet(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBSCValidatorSetCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewBSCValidatorSetTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewBSCValidatorSetFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.BSCValidatorSet)
			return map[string]any{
				"session":           &bsc.BSCValidatorSetSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.BSCValidatorSetCallerSession{Contract: &x.BSCValidatorSetCaller, CallOpts: co},
				"transactorSession": &bsc.BSCValidatorSetTransactorSession{Contract: &x.BSCValidatorSetTransactor, TransactOpts: to},
				"raw":               &bsc.BSCValidatorSetRaw{Contract: x},
				"callerRaw":         &bsc.BSCValidatorSetCallerRaw{Contract: &x.BSCValidatorSetCaller},
				"transactorRaw":     &bsc.BSCValidatorSetTransactorRaw{Contract: &x.BSCValidatorSetTransactor},
			}
		},
	},
	{
		name: "bsc.BatchEntry", meta: bsc.BatchEntryMetaData, abi: &bsc.BatchEntryABI, bin: bsc.BatchEntryBin, deploy: bsc.DeployBatchEntry,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchEntry(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchEntryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchEntryTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchEntryFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.BatchEntry)
			return map[string]any{
				"session":           &bsc.BatchEntrySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.BatchEntryCallerSession{Contract: &x.BatchEntryCaller, CallOpts: co},
				"transactorSession": &bsc.BatchEntryTransactorSession{Contract: &x.BatchEntryTransactor, TransactOpts: to},
				"raw":               &bsc.BatchEntryRaw{Contract: x},
				"callerRaw":         &bsc.BatchEntryCallerRaw{Contract: &x.BatchEntryCaller},
				"transactorRaw":     &bsc.BatchEntryTransactorRaw{Contract: &x.BatchEntryTransactor},
			}
		},
	},
	{
		name: "bsc.BatchProof", meta: bsc.BatchProofMetaData, abi: &bsc.BatchProofABI, bin: bsc.BatchProofBin, deploy: bsc.DeployBatchProof,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchProof(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchProofTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBatchProofFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.BatchProof)
			return map[string]any{
				"session":           &bsc.BatchProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.BatchProofCallerSession{Contract: &x.BatchProofCaller, CallOpts: co},
				"transactorSession": &bsc.BatchProofTransactorSession{Contract: &x.BatchProofTransactor, TransactOpts: to},
				"raw":               &bsc.BatchProofRaw{Contract: x},
				"callerRaw":         &bsc.BatchProofCallerRaw{Contract: &x.BatchProofCaller},
				"transactorRaw":     &bsc.BatchProofTransactorRaw{Contract: &x.BatchProofTransactor},
			}
		},
	},
	{
		name: "bsc.BlockID", meta: bsc.BlockIDMetaData, abi: &bsc.BlockIDABI, bin: bsc.BlockIDBin, deploy: bsc.DeployBlockID,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBlockID(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBlockIDCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBlockIDTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBlockIDFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.BlockID)
			return map[string]any{
				"session":           &bsc.BlockIDSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.BlockIDCallerSession{Contract: &x.BlockIDCaller, CallOpts: co},
				"transactorSession": &bsc.BlockIDTransactorSession{Contract: &x.BlockIDTransactor, TransactOpts: to},
				"raw":               &bsc.BlockIDRaw{Contract: x},
				"callerRaw":         &bsc.BlockIDCallerRaw{Contract: &x.BlockIDCaller},
				"transactorRaw":     &bsc.BlockIDTransactorRaw{Contract: &x.BlockIDTransactor},
			}
		},
	},
	{
		name: "bsc.Bytes", meta: bsc.BytesMetaData, abi: &bsc.BytesABI, bin: bsc.BytesBin, deploy: bsc.DeployBytes,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytes(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Bytes)
			return map[string]any{
				"session":           &bsc.BytesSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.BytesCallerSession{Contract: &x.BytesCaller, CallOpts: co},
				"transactorSession": &bsc.BytesTransactorSession{Contract: &x.BytesTransactor, TransactOpts: to},
				"raw":               &bsc.BytesRaw{Contract: x},
				"callerRaw":         &bsc.BytesCallerRaw{Contract: &x.BytesCaller},
				"transactorRaw":     &bsc.BytesTransactorRaw{Contract: &x.BytesTransactor},
			}
		},
	},
	{
		name: "bsc.BytesLib", meta: bsc.BytesLibMetaData, abi: &bsc.BytesLibABI, bin: bsc.BytesLibBin, deploy: bsc.DeployBytesLib,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesLib(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesLibCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesLibTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewBytesLibFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.BytesLib)
			return map[string]any{
				"session":           &bsc.BytesLibSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.BytesLibCallerSession{Contract: &x.BytesLibCaller, CallOpts: co},
				"transactorSession": &bsc.BytesLibTransactorSession{Contract: &x.BytesLibTransactor, TransactOpts: to},
				"raw":               &bsc.BytesLibRaw{Contract: x},
				"callerRaw":         &bsc.BytesLibCallerRaw{Contract: &x.BytesLibCaller},
				"transactorRaw":     &bsc.BytesLibTransactorRaw{Contract: &x.BytesLibTransactor},
			}
		},
	},
	{
		name: "bsc.CanonicalBlockID", meta: bsc.CanonicalBlockIDMetaData, abi: &bsc.CanonicalBlockIDABI, bin: bsc.CanonicalBlockIDBin, deploy: bsc.DeployCanonicalBlockID,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCanonicalBlockID(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalBlockIDCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalBlockIDTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalBlockIDFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CanonicalBlockID)
			return map[string]any{
				"session":           &bsc.CanonicalBlockIDSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CanonicalBlockIDCallerSession{Contract: &x.CanonicalBlockIDCaller, CallOpts: co},
				"transactorSession": &bsc.CanonicalBlockIDTransactorSession{Contract: &x.CanonicalBlockIDTransactor, TransactOpts: to},
				"raw":               &bsc.CanonicalBlockIDRaw{Contract: x},
				"callerRaw":         &bsc.CanonicalBlockIDCallerRaw{Contract: &x.CanonicalBlockIDCaller},
				"transactorRaw":     &bsc.CanonicalBlockIDTransactorRaw{Contract: &x.CanonicalBlockIDTransactor},
			}
		},
	},
	{
		name: "bsc.CanonicalPartSetHeader", meta: bsc.CanonicalPartSetHeaderMetaData, abi: &bsc.CanonicalPartSetHeaderABI, bin: bsc.CanonicalPartSetHeaderBin, deploy: bsc.DeployCanonicalPartSetHeader,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalPartSetHeader(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalPartSetHeaderCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalPartSetHeaderTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalPartSetHeaderFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CanonicalPartSetHeader)
			return map[string]any{
				"session":           &bsc.CanonicalPartSetHeaderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CanonicalPartSetHeaderCallerSession{Contract: &x.CanonicalPartSetHeaderCaller, CallOpts: co},
				"transactorSession": &bsc.CanonicalPartSetHeaderTransactorSession{Contract: &x.CanonicalPartSetHeaderTransactor, TransactOpts: to},
				"raw":               &bsc.CanonicalPartSetHeaderRaw{Contract: x},
				"callerRaw":         &bsc.CanonicalPartSetHeaderCallerRaw{Contract: &x.CanonicalPartSetHeaderCaller},
				"transactorRaw":     &bsc.CanonicalPartSetHeaderTransactorRaw{Contract: &x.CanonicalPartSetHeaderTransactor},
			}
		},
	},
	{
		name: "bsc.CanonicalVote", meta: bsc.CanonicalVoteMetaData, abi: &bsc.CanonicalVoteABI, bin: bsc.CanonicalVoteBin, deploy: bsc.DeployCanonicalVote,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCanonicalVote(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCanonicalVoteCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCanonicalVoteTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCanonicalVoteFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CanonicalVote)
			return map[string]any{
				"session":           &bsc.CanonicalVoteSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CanonicalVoteCallerSession{Contract: &x.CanonicalVoteCaller, CallOpts: co},
				"transactorSession": &bsc.CanonicalVoteTransactorSession{Contract: &x.CanonicalVoteTransactor, TransactOpts: to},
				"raw":               &bsc.CanonicalVoteRaw{Contract: x},
				"callerRaw":         &bsc.CanonicalVoteCallerRaw{Contract: &x.CanonicalVoteCaller},
				"transactorRaw":     &bsc.CanonicalVoteTransactorRaw{Contract: &x.CanonicalVoteTransactor},
			}
		},
	},
	{
		name: "bsc.ClientState", meta: bsc.ClientStateMetaData, abi: &bsc.ClientStateABI, bin: bsc.ClientStateBin, deploy: bsc.DeployClientState,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewClientState(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewClientStateCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewClientStateTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewClientStateFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ClientState)
			return map[string]any{
				"session":           &bsc.ClientStateSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ClientStateCallerSession{Contract: &x.ClientStateCaller, CallOpts: co},
				"transactorSession": &bsc.ClientStateTransactorSession{Contract: &x.ClientStateTransactor, TransactOpts: to},
				"raw":               &bsc.ClientStateRaw{Contract: x},
				"callerRaw":         &bsc.ClientStateCallerRaw{Contract: &x.ClientStateCaller},
				"transactorRaw":     &bsc.ClientStateTransactorRaw{Contract: &x.ClientStateTransactor},
			}
		},
	},
	{
		name: "bsc.CmnPkg", meta: bsc.CmnPkgMetaData, abi: &bsc.CmnPkgABI, bin: bsc.CmnPkgBin, deploy: bsc.DeployCmnPkg,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCmnPkg(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCmnPkgCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCmnPkgTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCmnPkgFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CmnPkg)
			return map[string]any{
				"session":           &bsc.CmnPkgSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CmnPkgCallerSession{Contract: &x.CmnPkgCaller, CallOpts: co},
				"transactorSession": &bsc.CmnPkgTransactorSession{Contract: &x.CmnPkgTransactor, TransactOpts: to},
				"raw":               &bsc.CmnPkgRaw{Contract: x},
				"callerRaw":         &bsc.CmnPkgCallerRaw{Contract: &x.CmnPkgCaller},
				"transactorRaw":     &bsc.CmnPkgTransactorRaw{Contract: &x.CmnPkgTransactor},
			}
		},
	},
	{
		name: "bsc.Commit", meta: bsc.CommitMetaData, abi: &bsc.CommitABI, bin: bsc.CommitBin, deploy: bsc.DeployCommit,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommit(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Commit)
			return map[string]any{
				"session":           &bsc.CommitSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CommitCallerSession{Contract: &x.CommitCaller, CallOpts: co},
				"transactorSession": &bsc.CommitTransactorSession{Contract: &x.CommitTransactor, TransactOpts: to},
				"raw":               &bsc.CommitRaw{Contract: x},
				"callerRaw":         &bsc.CommitCallerRaw{Contract: &x.CommitCaller},
				"transactorRaw":     &bsc.CommitTransactorRaw{Contract: &x.CommitTransactor},
			}
		},
	},
	{
		name: "bsc.CommitSig", meta: bsc.CommitSigMetaData, abi: &bsc.CommitSigABI, bin: bsc.CommitSigBin, deploy: bsc.DeployCommitSig,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitSig(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitSigCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitSigTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitSigFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CommitSig)
			return map[string]any{
				"session":           &bsc.CommitSigSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CommitSigCallerSession{Contract: &x.CommitSigCaller, CallOpts: co},
				"transactorSession": &bsc.CommitSigTransactorSession{Contract: &x.CommitSigTransactor, TransactOpts: to},
				"raw":               &bsc.CommitSigRaw{Contract: x},
				"callerRaw":         &bsc.CommitSigCallerRaw{Contract: &x.CommitSigCaller},
				"transactorRaw":     &bsc.CommitSigTransactorRaw{Contract: &x.CommitSigTransactor},
			}
		},
	},
	{
		name: "bsc.CommitmentProof", meta: bsc.CommitmentProofMetaData, abi: &bsc.CommitmentProofABI, bin: bsc.CommitmentProofBin, deploy: bsc.DeployCommitmentProof,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitmentProof(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCommitmentProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCommitmentProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCommitmentProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CommitmentProof)
			return map[string]any{
				"session":           &bsc.CommitmentProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CommitmentProofCallerSession{Contract: &x.CommitmentProofCaller, CallOpts: co},
				"transactorSession": &bsc.CommitmentProofTransactorSession{Contract: &x.CommitmentProofTransactor, TransactOpts: to},
				"raw":               &bsc.CommitmentProofRaw{Contract: x},
				"callerRaw":         &bsc.CommitmentProofCallerRaw{Contract: &x.CommitmentProofCaller},
				"transactorRaw":     &bsc.CommitmentProofTransactorRaw{Contract: &x.CommitmentProofTransactor},
			}
		},
	},
	{
		name: "bsc.Compress", meta: bsc.CompressMetaData, abi: &bsc.CompressABI, bin: bsc.CompressBin, deploy: bsc.DeployCompress,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCompress(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCompressCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCompressTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCompressFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Compress)
			return map[string]any{
				"session":           &bsc.CompressSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CompressCallerSession{Contract: &x.CompressCaller, CallOpts: co},
				"transactorSession": &bsc.CompressTransactorSession{Contract: &x.CompressTransactor, TransactOpts: to},
				"raw":               &bsc.CompressRaw{Contract: x},
				"callerRaw":         &bsc.CompressCallerRaw{Contract: &x.CompressCaller},
				"transactorRaw":     &bsc.CompressTransactorRaw{Contract: &x.CompressTransactor},
			}
		},
	},
	{
		name: "bsc.CompressedBatchEntry", meta: bsc.CompressedBatchEntryMetaData, abi: &bsc.CompressedBatchEntryABI, bin: bsc.CompressedBatchEntryBin, deploy: bsc.DeployCompressedBatchEntry,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCompressedBatchEntry(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedBatchEntryCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedBatchEntryTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedBatchEntryFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CompressedBatchEntry)
			return map[string]any{
				"session":           &bsc.CompressedBatchEntrySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CompressedBatchEntryCallerSession{Contract: &x.CompressedBatchEntryCaller, CallOpts: co},
				"transactorSession": &bsc.CompressedBatchEntryTransactorSession{Contract: &x.CompressedBatchEntryTransactor, TransactOpts: to},
				"raw":               &bsc.CompressedBatchEntryRaw{Contract: x},
				"callerRaw":         &bsc.CompressedBatchEntryCallerRaw{Contract: &x.CompressedBatchEntryCaller},
				"transactorRaw":     &bsc.CompressedBatchEntryTransactorRaw{Contract: &x.CompressedBatchEntryTransactor},
			}
		},
	},
	{
		name: "bsc.CompressedBatchProof", meta: bsc.CompressedBatchProofMetaData, abi: &bsc.CompressedBatchProofABI, bin: bsc.CompressedBatchProofBin, deploy: bsc.DeployCompressedBatchProof,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCompressedBatchProof(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedBatchProofCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedBatchProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedBatchProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CompressedBatchProof)
			return map[string]any{
				"session":           &bsc.CompressedBatchProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CompressedBatchProofCallerSession{Contract: &x.CompressedBatchProofCaller, CallOpts: co},
				"transactorSession": &bsc.CompressedBatchProofTransactorSession{Contract: &x.CompressedBatchProofTransactor, TransactOpts: to},
				"raw":               &bsc.CompressedBatchProofRaw{Contract: x},
				"callerRaw":         &bsc.CompressedBatchProofCallerRaw{Contract: &x.CompressedBatchProofCaller},
				"transactorRaw":     &bsc.CompressedBatchProofTransactorRaw{Contract: &x.CompressedBatchProofTransactor},
			}
		},
	},
	{
		name: "bsc.CompressedExistenceProof", meta: bsc.CompressedExistenceProofMetaData, abi: &bsc.CompressedExistenceProofABI, bin: bsc.CompressedExistenceProofBin, deploy: bsc.DeployCompressedExistenceProof,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedExistenceProof(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedExistenceProofCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedExistenceProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedExistenceProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CompressedExistenceProof)
			return map[string]any{
				"session":           &bsc.CompressedExistenceProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CompressedExistenceProofCallerSession{Contract: &x.CompressedExistenceProofCaller, CallOpts: co},
				"transactorSession": &bsc.CompressedExistenceProofTransactorSession{Contract: &x.CompressedExistenceProofTransactor, TransactOpts: to},
				"raw":               &bsc.CompressedExistenceProofRaw{Contract: x},
				"callerRaw":         &bsc.CompressedExistenceProofCallerRaw{Contract: &x.CompressedExistenceProofCaller},
				"transactorRaw":     &bsc.CompressedExistenceProofTransactorRaw{Contract: &x.CompressedExistenceProofTransactor},
			}
		},
	},
	{
		name: "bsc.CompressedNonExistenceProof", meta: bsc.CompressedNonExistenceProofMetaData, abi: &bsc.CompressedNonExistenceProofABI, bin: bsc.CompressedNonExistenceProofBin, deploy: bsc.DeployCompressedNonExistenceProof,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedNonExistenceProof(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedNonExistenceProofCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedNonExistenceProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewCompressedNonExistenceProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CompressedNonExistenceProof)
			return map[string]any{
				"session":           &bsc.CompressedNonExistenceProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CompressedNonExistenceProofCallerSession{Contract: &x.CompressedNonExistenceProofCaller, CallOpts: co},
				"transactorSession": &bsc.CompressedNonExistenceProofTransactorSession{Contract: &x.CompressedNonExistenceProofTransactor, TransactOpts: to},
				"raw":               &bsc.CompressedNonExistenceProofRaw{Contract: x},
				"callerRaw":         &bsc.CompressedNonExistenceProofCallerRaw{Contract: &x.CompressedNonExistenceProofCaller},
				"transactorRaw":     &bsc.CompressedNonExistenceProofTransactorRaw{Contract: &x.CompressedNonExistenceProofTransactor},
			}
		},
	},
	{
		name: "bsc.Consensus", meta: bsc.ConsensusMetaData, abi: &bsc.ConsensusABI, bin: bsc.ConsensusBin, deploy: bsc.DeployConsensus,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewConsensus(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewConsensusCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewConsensusTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewConsensusFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Consensus)
			return map[string]any{
				"session":           &bsc.ConsensusSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ConsensusCallerSession{Contract: &x.ConsensusCaller, CallOpts: co},
				"transactorSession": &bsc.ConsensusTransactorSession{Contract: &x.ConsensusTransactor, TransactOpts: to},
				"raw":               &bsc.ConsensusRaw{Contract: x},
				"callerRaw":         &bsc.ConsensusCallerRaw{Contract: &x.ConsensusCaller},
				"transactorRaw":     &bsc.ConsensusTransactorRaw{Contract: &x.ConsensusTransactor},
			}
		},
	},
	{
		name: "bsc.ConsensusState", meta: bsc.ConsensusStateMetaData, abi: &bsc.ConsensusStateABI, bin: bsc.ConsensusStateBin, deploy: bsc.DeployConsensusState,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewConsensusState(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewConsensusStateCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewConsensusStateTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewConsensusStateFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ConsensusState)
			return map[string]any{
				"session":           &bsc.ConsensusStateSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ConsensusStateCallerSession{Contract: &x.ConsensusStateCaller, CallOpts: co},
				"transactorSession": &bsc.ConsensusStateTransactorSession{Contract: &x.ConsensusStateTransactor, TransactOpts: to},
				"raw":               &bsc.ConsensusStateRaw{Contract: x},
				"callerRaw":         &bsc.ConsensusStateCallerRaw{Contract: &x.ConsensusStateCaller},
				"transactorRaw":     &bsc.ConsensusStateTransactorRaw{Contract: &x.ConsensusStateTransactor},
			}
		},
	},
	{
		name: "bsc.Context", meta: bsc.ContextMetaData, abi: &bsc.ContextABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewContext(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewContextCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewContextTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewContextFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Context)
			return map[string]any{
				"session":           &bsc.ContextSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ContextCallerSession{Contract: &x.ContextCaller, CallOpts: co},
				"transactorSession": &bsc.ContextTransactorSession{Contract: &x.ContextTransactor, TransactOpts: to},
				"raw":               &bsc.ContextRaw{Contract: x},
				"callerRaw":         &bsc.ContextCallerRaw{Contract: &x.ContextCaller},
				"transactorRaw":     &bsc.ContextTransactorRaw{Contract: &x.ContextTransactor},
			}
		},
	},
	{
		name: "bsc.CrossChain", meta: bsc.CrossChainMetaData, abi: &bsc.CrossChainABI, bin: bsc.CrossChainBin, deploy: bsc.DeployCrossChain,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCrossChain(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCrossChainCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCrossChainTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewCrossChainFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.CrossChain)
			return map[string]any{
				"session":           &bsc.CrossChainSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.CrossChainCallerSession{Contract: &x.CrossChainCaller, CallOpts: co},
				"transactorSession": &bsc.CrossChainTransactorSession{Contract: &x.CrossChainTransactor, TransactOpts: to},
				"raw":               &bsc.CrossChainRaw{Contract: x},
				"callerRaw":         &bsc.CrossChainCallerRaw{Contract: &x.CrossChainCaller},
				"transactorRaw":     &bsc.CrossChainTransactorRaw{Contract: &x.CrossChainTransactor},
			}
		},
	},
	{
		name: "bsc.Duration", meta: bsc.DurationMetaData, abi: &bsc.DurationABI, bin: bsc.DurationBin, deploy: bsc.DeployDuration,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewDuration(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewDurationCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewDurationTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewDurationFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Duration)
			return map[string]any{
				"session":           &bsc.DurationSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.DurationCallerSession{Contract: &x.DurationCaller, CallOpts: co},
				"transactorSession": &bsc.DurationTransactorSession{Contract: &x.DurationTransactor, TransactOpts: to},
				"raw":               &bsc.DurationRaw{Contract: x},
				"callerRaw":         &bsc.DurationCallerRaw{Contract: &x.DurationCaller},
				"transactorRaw":     &bsc.DurationTransactorRaw{Contract: &x.DurationTransactor},
			}
		},
	},
	{
		name: "bsc.ECDSA", meta: bsc.ECDSAMetaData, abi: &bsc.ECDSAABI, bin: bsc.ECDSABin, deploy: bsc.DeployECDSA,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewECDSA(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewECDSACaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewECDSATransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewECDSAFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ECDSA)
			return map[string]any{
				"session":           &bsc.ECDSASession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ECDSACallerSession{Contract: &x.ECDSACaller, CallOpts: co},
				"transactorSession": &bsc.ECDSATransactorSession{Contract: &x.ECDSATransactor, TransactOpts: to},
				"raw":               &bsc.ECDSARaw{Contract: x},
				"callerRaw":         &bsc.ECDSACallerRaw{Contract: &x.ECDSACaller},
				"transactorRaw":     &bsc.ECDSATransactorRaw{Contract: &x.ECDSATransactor},
			}
		},
	},
	{
		name: "bsc.Ed25519Verifier", meta: bsc.Ed25519VerifierMetaData, abi: &bsc.Ed25519VerifierABI, bin: bsc.Ed25519VerifierBin, deploy: bsc.DeployEd25519Verifier,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewEd25519Verifier(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewEd25519VerifierCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewEd25519VerifierTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewEd25519VerifierFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Ed25519Verifier)
			return map[string]any{
				"session":           &bsc.Ed25519VerifierSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.Ed25519VerifierCallerSession{Contract: &x.Ed25519VerifierCaller, CallOpts: co},
				"transactorSession": &bsc.Ed25519VerifierTransactorSession{Contract: &x.Ed25519VerifierTransactor, TransactOpts: to},
				"raw":               &bsc.Ed25519VerifierRaw{Contract: x},
				"callerRaw":         &bsc.Ed25519VerifierCallerRaw{Contract: &x.Ed25519VerifierCaller},
				"transactorRaw":     &bsc.Ed25519VerifierTransactorRaw{Contract: &x.Ed25519VerifierTransactor},
			}
		},
	},
	{
		name: "bsc.Encoder", meta: bsc.EncoderMetaData, abi: &bsc.EncoderABI, bin: bsc.EncoderBin, deploy: bsc.DeployEncoder,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewEncoder(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewEncoderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewEncoderTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewEncoderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Encoder)
			return map[string]any{
				"session":           &bsc.EncoderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.EncoderCallerSession{Contract: &x.EncoderCaller, CallOpts: co},
				"transactorSession": &bsc.EncoderTransactorSession{Contract: &x.EncoderTransactor, TransactOpts: to},
				"raw":               &bsc.EncoderRaw{Contract: x},
				"callerRaw":         &bsc.EncoderCallerRaw{Contract: &x.EncoderCaller},
				"transactorRaw":     &bsc.EncoderTransactorRaw{Contract: &x.EncoderTransactor},
			}
		},
	},
	{
		name: "bsc.ExistenceProof", meta: bsc.ExistenceProofMetaData, abi: &bsc.ExistenceProofABI, bin: bsc.ExistenceProofBin, deploy: bsc.DeployExistenceProof,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewExistenceProof(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewExistenceProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewExistenceProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewExistenceProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ExistenceProof)
			return map[string]any{
				"session":           &bsc.ExistenceProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ExistenceProofCallerSession{Contract: &x.ExistenceProofCaller, CallOpts: co},
				"transactorSession": &bsc.ExistenceProofTransactorSession{Contract: &x.ExistenceProofTransactor, TransactOpts: to},
				"raw":               &bsc.ExistenceProofRaw{Contract: x},
				"callerRaw":         &bsc.ExistenceProofCallerRaw{Contract: &x.ExistenceProofCaller},
				"transactorRaw":     &bsc.ExistenceProofTransactorRaw{Contract: &x.ExistenceProofTransactor},
			}
		},
	},
	{
		name: "bsc.Fraction", meta: bsc.FractionMetaData, abi: &bsc.FractionABI, bin: bsc.FractionBin, deploy: bsc.DeployFraction,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewFraction(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewFractionCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewFractionTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewFractionFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Fraction)
			return map[string]any{
				"session":           &bsc.FractionSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.FractionCallerSession{Contract: &x.FractionCaller, CallOpts: co},
				"transactorSession": &bsc.FractionTransactorSession{Contract: &x.FractionTransactor, TransactOpts: to},
				"raw":               &bsc.FractionRaw{Contract: x},
				"callerRaw":         &bsc.FractionCallerRaw{Contract: &x.FractionCaller},
				"transactorRaw":     &bsc.FractionTransactorRaw{Contract: &x.FractionTransactor},
			}
		},
	},
	{
		name: "bsc.GoogleProtobufAny", meta: bsc.GoogleProtobufAnyMetaData, abi: &bsc.GoogleProtobufAnyABI, bin: bsc.GoogleProtobufAnyBin, deploy: bsc.DeployGoogleProtobufAny,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewGoogleProtobufAny(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewGoogleProtobufAnyCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewGoogleProtobufAnyTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewGoogleProtobufAnyFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.GoogleProtobufAny)
			return map[string]any{
				"session":           &bsc.GoogleProtobufAnySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.GoogleProtobufAnyCallerSession{Contract: &x.GoogleProtobufAnyCaller, CallOpts: co},
				"transactorSession": &bsc.GoogleProtobufAnyTransactorSession{Contract: &x.GoogleProtobufAnyTransactor, TransactOpts: to},
				"raw":               &bsc.GoogleProtobufAnyRaw{Contract: x},
				"callerRaw":         &bsc.GoogleProtobufAnyCallerRaw{Contract: &x.GoogleProtobufAnyCaller},
				"transactorRaw":     &bsc.GoogleProtobufAnyTransactorRaw{Contract: &x.GoogleProtobufAnyTransactor},
			}
		},
	},
	{
		name: "bsc.IApplication", meta: bsc.IApplicationMetaData, abi: &bsc.IApplicationABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIApplication(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIApplicationCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIApplicationTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIApplicationFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.IApplication)
			return map[string]any{
				"session":           &bsc.IApplicationSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.IApplicationCallerSession{Contract: &x.IApplicationCaller, CallOpts: co},
				"transactorSession": &bsc.IApplicationTransactorSession{Contract: &x.IApplicationTransactor, TransactOpts: to},
				"raw":               &bsc.IApplicationRaw{Contract: x},
				"callerRaw":         &bsc.IApplicationCallerRaw{Contract: &x.IApplicationCaller},
				"transactorRaw":     &bsc.IApplicationTransactorRaw{Contract: &x.IApplicationTransactor},
			}
		},
	},
	{
		name: "bsc.IBSCValidatorSet", meta: bsc.IBSCValidatorSetMetaData, abi: &bsc.IBSCValidatorSetABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIBSCValidatorSet(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIBSCValidatorSetCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIBSCValidatorSetTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIBSCValidatorSetFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.IBSCValidatorSet)
			return map[string]any{
				"session":           &bsc.IBSCValidatorSetSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.IBSCValidatorSetCallerSession{Contract: &x.IBSCValidatorSetCaller, CallOpts: co},
				"transactorSession": &bsc.IBSCValidatorSetTransactorSession{Contract: &x.IBSCValidatorSetTransactor, TransactOpts: to},
				"raw":               &bsc.IBSCValidatorSetRaw{Contract: x},
				"callerRaw":         &bsc.IBSCValidatorSetCallerRaw{Contract: &x.IBSCValidatorSetCaller},
				"transactorRaw":     &bsc.IBSCValidatorSetTransactorRaw{Contract: &x.IBSCValidatorSetTransactor},
			}
		},
	},
	{
		name: "bsc.ICrossChain", meta: bsc.ICrossChainMetaData, abi: &bsc.ICrossChainABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewICrossChain(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewICrossChainCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewICrossChainTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewICrossChainFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ICrossChain)
			return map[string]any{
				"session":           &bsc.ICrossChainSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ICrossChainCallerSession{Contract: &x.ICrossChainCaller, CallOpts: co},
				"transactorSession": &bsc.ICrossChainTransactorSession{Contract: &x.ICrossChainTransactor, TransactOpts: to},
				"raw":               &bsc.ICrossChainRaw{Contract: x},
				"callerRaw":         &bsc.ICrossChainCallerRaw{Contract: &x.ICrossChainCaller},
				"transactorRaw":     &bsc.ICrossChainTransactorRaw{Contract: &x.ICrossChainTransactor},
			}
		},
	},
	{
		name: "bsc.IEthereumLightClient", meta: bsc.IEthereumLightClientMetaData, abi: &bsc.IEthereumLightClientABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIEthereumLightClient(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIEthereumLightClientCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIEthereumLightClientTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewIEthereumLightClientFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.IEthereumLightClient)
			return map[string]any{
				"session":           &bsc.IEthereumLightClientSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.IEthereumLightClientCallerSession{Contract: &x.IEthereumLightClientCaller, CallOpts: co},
				"transactorSession": &bsc.IEthereumLightClientTransactorSession{Contract: &x.IEthereumLightClientTransactor, TransactOpts: to},
				"raw":               &bsc.IEthereumLightClientRaw{Contract: x},
				"callerRaw":         &bsc.IEthereumLightClientCallerRaw{Contract: &x.IEthereumLightClientCaller},
				"transactorRaw":     &bsc.IEthereumLightClientTransactorRaw{Contract: &x.IEthereumLightClientTransactor},
			}
		},
	},
	{
		name: "bsc.ITendermintLightClient", meta: bsc.ITendermintLightClientMetaData, abi: &bsc.ITendermintLightClientABI, bin: "", deploy: nil,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewITendermintLightClient(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewITendermintLightClientCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewITendermintLightClientTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewITendermintLightClientFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ITendermintLightClient)
			return map[string]any{
				"session":           &bsc.ITendermintLightClientSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ITendermintLightClientCallerSession{Contract: &x.ITendermintLightClientCaller, CallOpts: co},
				"transactorSession": &bsc.ITendermintLightClientTransactorSession{Contract: &x.ITendermintLightClientTransactor, TransactOpts: to},
				"raw":               &bsc.ITendermintLightClientRaw{Contract: x},
				"callerRaw":         &bsc.ITendermintLightClientCallerRaw{Contract: &x.ITendermintLightClientCaller},
				"transactorRaw":     &bsc.ITendermintLightClientTransactorRaw{Contract: &x.ITendermintLightClientTransactor},
			}
		},
	},
	{
		name: "bsc.Ics23", meta: bsc.Ics23MetaData, abi: &bsc.Ics23ABI, bin: bsc.Ics23Bin, deploy: bsc.DeployIcs23,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIcs23(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIcs23Caller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIcs23Transactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewIcs23Filterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Ics23)
			return map[string]any{
				"session":           &bsc.Ics23Session{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.Ics23CallerSession{Contract: &x.Ics23Caller, CallOpts: co},
				"transactorSession": &bsc.Ics23TransactorSession{Contract: &x.Ics23Transactor, TransactOpts: to},
				"raw":               &bsc.Ics23Raw{Contract: x},
				"callerRaw":         &bsc.Ics23CallerRaw{Contract: &x.Ics23Caller},
				"transactorRaw":     &bsc.Ics23TransactorRaw{Contract: &x.Ics23Transactor},
			}
		},
	},
	{
		name: "bsc.Initializable", meta: bsc.InitializableMetaData, abi: &bsc.InitializableABI, bin: "", deploy: nil,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInitializable(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInitializableCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewInitializableTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInitializableFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Initializable)
			return map[string]any{
				"session":           &bsc.InitializableSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.InitializableCallerSession{Contract: &x.InitializableCaller, CallOpts: co},
				"transactorSession": &bsc.InitializableTransactorSession{Contract: &x.InitializableTransactor, TransactOpts: to},
				"raw":               &bsc.InitializableRaw{Contract: x},
				"callerRaw":         &bsc.InitializableCallerRaw{Contract: &x.InitializableCaller},
				"transactorRaw":     &bsc.InitializableTransactorRaw{Contract: &x.InitializableTransactor},
			}
		},
	},
	{
		name: "bsc.InnerOp", meta: bsc.InnerOpMetaData, abi: &bsc.InnerOpABI, bin: bsc.InnerOpBin, deploy: bsc.DeployInnerOp,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerOp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerOpCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerOpTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerOpFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.InnerOp)
			return map[string]any{
				"session":           &bsc.InnerOpSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.InnerOpCallerSession{Contract: &x.InnerOpCaller, CallOpts: co},
				"transactorSession": &bsc.InnerOpTransactorSession{Contract: &x.InnerOpTransactor, TransactOpts: to},
				"raw":               &bsc.InnerOpRaw{Contract: x},
				"callerRaw":         &bsc.InnerOpCallerRaw{Contract: &x.InnerOpCaller},
				"transactorRaw":     &bsc.InnerOpTransactorRaw{Contract: &x.InnerOpTransactor},
			}
		},
	},
	{
		name: "bsc.InnerSpec", meta: bsc.InnerSpecMetaData, abi: &bsc.InnerSpecABI, bin: bsc.InnerSpecBin, deploy: bsc.DeployInnerSpec,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerSpec(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerSpecCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerSpecTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewInnerSpecFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.InnerSpec)
			return map[string]any{
				"session":           &bsc.InnerSpecSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.InnerSpecCallerSession{Contract: &x.InnerSpecCaller, CallOpts: co},
				"transactorSession": &bsc.InnerSpecTransactorSession{Contract: &x.InnerSpecTransactor, TransactOpts: to},
				"raw":               &bsc.InnerSpecRaw{Contract: x},
				"callerRaw":         &bsc.InnerSpecCallerRaw{Contract: &x.InnerSpecCaller},
				"transactorRaw":     &bsc.InnerSpecTransactorRaw{Contract: &x.InnerSpecTransactor},
			}
		},
	},
	{
		name: "bsc.LeafOp", meta: bsc.LeafOpMetaData, abi: &bsc.LeafOpABI, bin: bsc.LeafOpBin, deploy: bsc.DeployLeafOp,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLeafOp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLeafOpCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLeafOpTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLeafOpFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.LeafOp)
			return map[string]any{
				"session":           &bsc.LeafOpSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.LeafOpCallerSession{Contract: &x.LeafOpCaller, CallOpts: co},
				"transactorSession": &bsc.LeafOpTransactorSession{Contract: &x.LeafOpTransactor, TransactOpts: to},
				"raw":               &bsc.LeafOpRaw{Contract: x},
				"callerRaw":         &bsc.LeafOpCallerRaw{Contract: &x.LeafOpCaller},
				"transactorRaw":     &bsc.LeafOpTransactorRaw{Contract: &x.LeafOpTransactor},
			}
		},
	},
	{
		name: "bsc.LightHeader", meta: bsc.LightHeaderMetaData, abi: &bsc.LightHeaderABI, bin: bsc.LightHeaderBin, deploy: bsc.DeployLightHeader,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLightHeader(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLightHeaderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLightHeaderTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewLightHeaderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.LightHeader)
			return map[string]any{
				"session":           &bsc.LightHeaderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.LightHeaderCallerSession{Contract: &x.LightHeaderCaller, CallOpts: co},
				"transactorSession": &bsc.LightHeaderTransactorSession{Contract: &x.LightHeaderTransactor, TransactOpts: to},
				"raw":               &bsc.LightHeaderRaw{Contract: x},
				"callerRaw":         &bsc.LightHeaderCallerRaw{Contract: &x.LightHeaderCaller},
				"transactorRaw":     &bsc.LightHeaderTransactorRaw{Contract: &x.LightHeaderTransactor},
			}
		},
	},
	{
		name: "bsc.Math", meta: bsc.MathMetaData, abi: &bsc.MathABI, bin: bsc.MathBin, deploy: bsc.DeployMath,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMath(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMathCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMathTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMathFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Math)
			return map[string]any{
				"session":           &bsc.MathSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.MathCallerSession{Contract: &x.MathCaller, CallOpts: co},
				"transactorSession": &bsc.MathTransactorSession{Contract: &x.MathTransactor, TransactOpts: to},
				"raw":               &bsc.MathRaw{Contract: x},
				"callerRaw":         &bsc.MathCallerRaw{Contract: &x.MathCaller},
				"transactorRaw":     &bsc.MathTransactorRaw{Contract: &x.MathTransactor},
			}
		},
	},
	{
		name: "bsc.Memory", meta: bsc.MemoryMetaData, abi: &bsc.MemoryABI, bin: bsc.MemoryBin, deploy: bsc.DeployMemory,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMemory(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMemoryCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMemoryTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMemoryFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Memory)
			return map[string]any{
				"session":           &bsc.MemorySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.MemoryCallerSession{Contract: &x.MemoryCaller, CallOpts: co},
				"transactorSession": &bsc.MemoryTransactorSession{Contract: &x.MemoryTransactor, TransactOpts: to},
				"raw":               &bsc.MemoryRaw{Contract: x},
				"callerRaw":         &bsc.MemoryCallerRaw{Contract: &x.MemoryCaller},
				"transactorRaw":     &bsc.MemoryTransactorRaw{Contract: &x.MemoryTransactor},
			}
		},
	},
	{
		name: "bsc.MerkleRoot", meta: bsc.MerkleRootMetaData, abi: &bsc.MerkleRootABI, bin: bsc.MerkleRootBin, deploy: bsc.DeployMerkleRoot,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleRoot(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleRootCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleRootTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleRootFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.MerkleRoot)
			return map[string]any{
				"session":           &bsc.MerkleRootSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.MerkleRootCallerSession{Contract: &x.MerkleRootCaller, CallOpts: co},
				"transactorSession": &bsc.MerkleRootTransactorSession{Contract: &x.MerkleRootTransactor, TransactOpts: to},
				"raw":               &bsc.MerkleRootRaw{Contract: x},
				"callerRaw":         &bsc.MerkleRootCallerRaw{Contract: &x.MerkleRootCaller},
				"transactorRaw":     &bsc.MerkleRootTransactorRaw{Contract: &x.MerkleRootTransactor},
			}
		},
	},
	{
		name: "bsc.MerkleTree", meta: bsc.MerkleTreeMetaData, abi: &bsc.MerkleTreeABI, bin: bsc.MerkleTreeBin, deploy: bsc.DeployMerkleTree,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleTree(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleTreeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleTreeTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewMerkleTreeFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.MerkleTree)
			return map[string]any{
				"session":           &bsc.MerkleTreeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.MerkleTreeCallerSession{Contract: &x.MerkleTreeCaller, CallOpts: co},
				"transactorSession": &bsc.MerkleTreeTransactorSession{Contract: &x.MerkleTreeTransactor, TransactOpts: to},
				"raw":               &bsc.MerkleTreeRaw{Contract: x},
				"callerRaw":         &bsc.MerkleTreeCallerRaw{Contract: &x.MerkleTreeCaller},
				"transactorRaw":     &bsc.MerkleTreeTransactorRaw{Contract: &x.MerkleTreeTransactor},
			}
		},
	},
	{
		name: "bsc.NonExistenceProof", meta: bsc.NonExistenceProofMetaData, abi: &bsc.NonExistenceProofABI, bin: bsc.NonExistenceProofBin, deploy: bsc.DeployNonExistenceProof,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewNonExistenceProof(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewNonExistenceProofCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewNonExistenceProofTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewNonExistenceProofFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.NonExistenceProof)
			return map[string]any{
				"session":           &bsc.NonExistenceProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.NonExistenceProofCallerSession{Contract: &x.NonExistenceProofCaller, CallOpts: co},
				"transactorSession": &bsc.NonExistenceProofTransactorSession{Contract: &x.NonExistenceProofTransactor, TransactOpts: to},
				"raw":               &bsc.NonExistenceProofRaw{Contract: x},
				"callerRaw":         &bsc.NonExistenceProofCallerRaw{Contract: &x.NonExistenceProofCaller},
				"transactorRaw":     &bsc.NonExistenceProofTransactorRaw{Contract: &x.NonExistenceProofTransactor},
			}
		},
	},
	{
		name: "bsc.Ops", meta: bsc.OpsMetaData, abi: &bsc.OpsABI, bin: bsc.OpsBin, deploy: bsc.DeployOps,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOps(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOpsCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOpsTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOpsFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Ops)
			return map[string]any{
				"session":           &bsc.OpsSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.OpsCallerSession{Contract: &x.OpsCaller, CallOpts: co},
				"transactorSession": &bsc.OpsTransactorSession{Contract: &x.OpsTransactor, TransactOpts: to},
				"raw":               &bsc.OpsRaw{Contract: x},
				"callerRaw":         &bsc.OpsCallerRaw{Contract: &x.OpsCaller},
				"transactorRaw":     &bsc.OpsTransactorRaw{Contract: &x.OpsTransactor},
			}
		},
	},
	{
		name: "bsc.Ownable", meta: bsc.OwnableMetaData, abi: &bsc.OwnableABI, bin: "", deploy: nil,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOwnable(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOwnableCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOwnableTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewOwnableFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Ownable)
			return map[string]any{
				"session":           &bsc.OwnableSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.OwnableCallerSession{Contract: &x.OwnableCaller, CallOpts: co},
				"transactorSession": &bsc.OwnableTransactorSession{Contract: &x.OwnableTransactor, TransactOpts: to},
				"raw":               &bsc.OwnableRaw{Contract: x},
				"callerRaw":         &bsc.OwnableCallerRaw{Contract: &x.OwnableCaller},
				"transactorRaw":     &bsc.OwnableTransactorRaw{Contract: &x.OwnableTransactor},
			}
		},
	},
	{
		name: "bsc.PROOFSPROTOGLOBALENUMS", meta: bsc.PROOFSPROTOGLOBALENUMSMetaData, abi: &bsc.PROOFSPROTOGLOBALENUMSABI, bin: bsc.PROOFSPROTOGLOBALENUMSBin, deploy: bsc.DeployPROOFSPROTOGLOBALENUMS,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPROOFSPROTOGLOBALENUMS(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPROOFSPROTOGLOBALENUMSCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPROOFSPROTOGLOBALENUMSTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPROOFSPROTOGLOBALENUMSFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.PROOFSPROTOGLOBALENUMS)
			return map[string]any{
				"session":           &bsc.PROOFSPROTOGLOBALENUMSSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.PROOFSPROTOGLOBALENUMSCallerSession{Contract: &x.PROOFSPROTOGLOBALENUMSCaller, CallOpts: co},
				"transactorSession": &bsc.PROOFSPROTOGLOBALENUMSTransactorSession{Contract: &x.PROOFSPROTOGLOBALENUMSTransactor, TransactOpts: to},
				"raw":               &bsc.PROOFSPROTOGLOBALENUMSRaw{Contract: x},
				"callerRaw":         &bsc.PROOFSPROTOGLOBALENUMSCallerRaw{Contract: &x.PROOFSPROTOGLOBALENUMSCaller},
				"transactorRaw":     &bsc.PROOFSPROTOGLOBALENUMSTransactorRaw{Contract: &x.PROOFSPROTOGLOBALENUMSTransactor},
			}
		},
	},
	{
		name: "bsc.Pairing", meta: bsc.PairingMetaData, abi: &bsc.PairingABI, bin: bsc.PairingBin, deploy: bsc.DeployPairing,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPairing(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPairingCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPairingTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPairingFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Pairing)
			return map[string]any{
				"session":           &bsc.PairingSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.PairingCallerSession{Contract: &x.PairingCaller, CallOpts: co},
				"transactorSession": &bsc.PairingTransactorSession{Contract: &x.PairingTransactor, TransactOpts: to},
				"raw":               &bsc.PairingRaw{Contract: x},
				"callerRaw":         &bsc.PairingCallerRaw{Contract: &x.PairingCaller},
				"transactorRaw":     &bsc.PairingTransactorRaw{Contract: &x.PairingTransactor},
			}
		},
	},
	{
		name: "bsc.PartSetHeader", meta: bsc.PartSetHeaderMetaData, abi: &bsc.PartSetHeaderABI, bin: bsc.PartSetHeaderBin, deploy: bsc.DeployPartSetHeader,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPartSetHeader(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPartSetHeaderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPartSetHeaderTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPartSetHeaderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.PartSetHeader)
			return map[string]any{
				"session":           &bsc.PartSetHeaderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.PartSetHeaderCallerSession{Contract: &x.PartSetHeaderCaller, CallOpts: co},
				"transactorSession": &bsc.PartSetHeaderTransactorSession{Contract: &x.PartSetHeaderTransactor, TransactOpts: to},
				"raw":               &bsc.PartSetHeaderRaw{Contract: x},
				"callerRaw":         &bsc.PartSetHeaderCallerRaw{Contract: &x.PartSetHeaderCaller},
				"transactorRaw":     &bsc.PartSetHeaderTransactorRaw{Contract: &x.PartSetHeaderTransactor},
			}
		},
	},
	{
		name: "bsc.PoALightClient", meta: bsc.PoALightClientMetaData, abi: &bsc.PoALightClientABI, bin: bsc.PoALightClientBin, deploy: bsc.DeployPoALightClient,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPoALightClient(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPoALightClientCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPoALightClientTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewPoALightClientFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.PoALightClient)
			return map[string]any{
				"session":           &bsc.PoALightClientSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.PoALightClientCallerSession{Contract: &x.PoALightClientCaller, CallOpts: co},
				"transactorSession": &bsc.PoALightClientTransactorSession{Contract: &x.PoALightClientTransactor, TransactOpts: to},
				"raw":               &bsc.PoALightClientRaw{Contract: x},
				"callerRaw":         &bsc.PoALightClientCallerRaw{Contract: &x.PoALightClientCaller},
				"transactorRaw":     &bsc.PoALightClientTransactorRaw{Contract: &x.PoALightClientTransactor},
			}
		},
	},
	{
		name: "bsc.Proof", meta: bsc.ProofMetaData, abi: &bsc.ProofABI, bin: bsc.ProofBin, deploy: bsc.DeployProof,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProof(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Proof)
			return map[string]any{
				"session":           &bsc.ProofSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ProofCallerSession{Contract: &x.ProofCaller, CallOpts: co},
				"transactorSession": &bsc.ProofTransactorSession{Contract: &x.ProofTransactor, TransactOpts: to},
				"raw":               &bsc.ProofRaw{Contract: x},
				"callerRaw":         &bsc.ProofCallerRaw{Contract: &x.ProofCaller},
				"transactorRaw":     &bsc.ProofTransactorRaw{Contract: &x.ProofTransactor},
			}
		},
	},
	{
		name: "bsc.ProofSpec", meta: bsc.ProofSpecMetaData, abi: &bsc.ProofSpecABI, bin: bsc.ProofSpecBin, deploy: bsc.DeployProofSpec,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofSpec(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofSpecCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofSpecTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProofSpecFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ProofSpec)
			return map[string]any{
				"session":           &bsc.ProofSpecSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ProofSpecCallerSession{Contract: &x.ProofSpecCaller, CallOpts: co},
				"transactorSession": &bsc.ProofSpecTransactorSession{Contract: &x.ProofSpecTransactor, TransactOpts: to},
				"raw":               &bsc.ProofSpecRaw{Contract: x},
				"callerRaw":         &bsc.ProofSpecCallerRaw{Contract: &x.ProofSpecCaller},
				"transactorRaw":     &bsc.ProofSpecTransactorRaw{Contract: &x.ProofSpecTransactor},
			}
		},
	},
	{
		name: "bsc.ProtoBufRuntime", meta: bsc.ProtoBufRuntimeMetaData, abi: &bsc.ProtoBufRuntimeABI, bin: bsc.ProtoBufRuntimeBin, deploy: bsc.DeployProtoBufRuntime,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProtoBufRuntime(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewProtoBufRuntimeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewProtoBufRuntimeTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewProtoBufRuntimeFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ProtoBufRuntime)
			return map[string]any{
				"session":           &bsc.ProtoBufRuntimeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ProtoBufRuntimeCallerSession{Contract: &x.ProtoBufRuntimeCaller, CallOpts: co},
				"transactorSession": &bsc.ProtoBufRuntimeTransactorSession{Contract: &x.ProtoBufRuntimeTransactor, TransactOpts: to},
				"raw":               &bsc.ProtoBufRuntimeRaw{Contract: x},
				"callerRaw":         &bsc.ProtoBufRuntimeCallerRaw{Contract: &x.ProtoBufRuntimeCaller},
				"transactorRaw":     &bsc.ProtoBufRuntimeTransactorRaw{Contract: &x.ProtoBufRuntimeTransactor},
			}
		},
	},
	{
		name: "bsc.PublicKey", meta: bsc.PublicKeyMetaData, abi: &bsc.PublicKeyABI, bin: bsc.PublicKeyBin, deploy: bsc.DeployPublicKey,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPublicKey(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPublicKeyCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPublicKeyTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewPublicKeyFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.PublicKey)
			return map[string]any{
				"session":           &bsc.PublicKeySession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.PublicKeyCallerSession{Contract: &x.PublicKeyCaller, CallOpts: co},
				"transactorSession": &bsc.PublicKeyTransactorSession{Contract: &x.PublicKeyTransactor, TransactOpts: to},
				"raw":               &bsc.PublicKeyRaw{Contract: x},
				"callerRaw":         &bsc.PublicKeyCallerRaw{Contract: &x.PublicKeyCaller},
				"transactorRaw":     &bsc.PublicKeyTransactorRaw{Contract: &x.PublicKeyTransactor},
			}
		},
	},
	{
		name: "bsc.RLPDecode", meta: bsc.RLPDecodeMetaData, abi: &bsc.RLPDecodeABI, bin: bsc.RLPDecodeBin, deploy: bsc.DeployRLPDecode,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPDecode(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPDecodeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPDecodeTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPDecodeFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.RLPDecode)
			return map[string]any{
				"session":           &bsc.RLPDecodeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.RLPDecodeCallerSession{Contract: &x.RLPDecodeCaller, CallOpts: co},
				"transactorSession": &bsc.RLPDecodeTransactorSession{Contract: &x.RLPDecodeTransactor, TransactOpts: to},
				"raw":               &bsc.RLPDecodeRaw{Contract: x},
				"callerRaw":         &bsc.RLPDecodeCallerRaw{Contract: &x.RLPDecodeCaller},
				"transactorRaw":     &bsc.RLPDecodeTransactorRaw{Contract: &x.RLPDecodeTransactor},
			}
		},
	},
	{
		name: "bsc.RLPEncode", meta: bsc.RLPEncodeMetaData, abi: &bsc.RLPEncodeABI, bin: bsc.RLPEncodeBin, deploy: bsc.DeployRLPEncode,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPEncode(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPEncodeCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPEncodeTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPEncodeFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.RLPEncode)
			return map[string]any{
				"session":           &bsc.RLPEncodeSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.RLPEncodeCallerSession{Contract: &x.RLPEncodeCaller, CallOpts: co},
				"transactorSession": &bsc.RLPEncodeTransactorSession{Contract: &x.RLPEncodeTransactor, TransactOpts: to},
				"raw":               &bsc.RLPEncodeRaw{Contract: x},
				"callerRaw":         &bsc.RLPEncodeCallerRaw{Contract: &x.RLPEncodeCaller},
				"transactorRaw":     &bsc.RLPEncodeTransactorRaw{Contract: &x.RLPEncodeTransactor},
			}
		},
	},
	{
		name: "bsc.RLPWriter", meta: bsc.RLPWriterMetaData, abi: &bsc.RLPWriterABI, bin: bsc.RLPWriterBin, deploy: bsc.DeployRLPWriter,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPWriter(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPWriterCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPWriterTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewRLPWriterFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.RLPWriter)
			return map[string]any{
				"session":           &bsc.RLPWriterSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.RLPWriterCallerSession{Contract: &x.RLPWriterCaller, CallOpts: co},
				"transactorSession": &bsc.RLPWriterTransactorSession{Contract: &x.RLPWriterTransactor, TransactOpts: to},
				"raw":               &bsc.RLPWriterRaw{Contract: x},
				"callerRaw":         &bsc.RLPWriterCallerRaw{Contract: &x.RLPWriterCaller},
				"transactorRaw":     &bsc.RLPWriterTransactorRaw{Contract: &x.RLPWriterTransactor},
			}
		},
	},
	{
		name: "bsc.SafeCast", meta: bsc.SafeCastMetaData, abi: &bsc.SafeCastABI, bin: bsc.SafeCastBin, deploy: bsc.DeploySafeCast,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSafeCast(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSafeCastCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSafeCastTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSafeCastFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.SafeCast)
			return map[string]any{
				"session":           &bsc.SafeCastSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.SafeCastCallerSession{Contract: &x.SafeCastCaller, CallOpts: co},
				"transactorSession": &bsc.SafeCastTransactorSession{Contract: &x.SafeCastTransactor, TransactOpts: to},
				"raw":               &bsc.SafeCastRaw{Contract: x},
				"callerRaw":         &bsc.SafeCastCallerRaw{Contract: &x.SafeCastCaller},
				"transactorRaw":     &bsc.SafeCastTransactorRaw{Contract: &x.SafeCastTransactor},
			}
		},
	},
	{
		name: "bsc.SignedHeader", meta: bsc.SignedHeaderMetaData, abi: &bsc.SignedHeaderABI, bin: bsc.SignedHeaderBin, deploy: bsc.DeploySignedHeader,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSignedHeader(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSignedHeaderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewSignedHeaderTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSignedHeaderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.SignedHeader)
			return map[string]any{
				"session":           &bsc.SignedHeaderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.SignedHeaderCallerSession{Contract: &x.SignedHeaderCaller, CallOpts: co},
				"transactorSession": &bsc.SignedHeaderTransactorSession{Contract: &x.SignedHeaderTransactor, TransactOpts: to},
				"raw":               &bsc.SignedHeaderRaw{Contract: x},
				"callerRaw":         &bsc.SignedHeaderCallerRaw{Contract: &x.SignedHeaderCaller},
				"transactorRaw":     &bsc.SignedHeaderTransactorRaw{Contract: &x.SignedHeaderTransactor},
			}
		},
	},
	{
		name: "bsc.SimpleValidator", meta: bsc.SimpleValidatorMetaData, abi: &bsc.SimpleValidatorABI, bin: bsc.SimpleValidatorBin, deploy: bsc.DeploySimpleValidator,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSimpleValidator(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSimpleValidatorCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewSimpleValidatorTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewSimpleValidatorFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.SimpleValidator)
			return map[string]any{
				"session":           &bsc.SimpleValidatorSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.SimpleValidatorCallerSession{Contract: &x.SimpleValidatorCaller, CallOpts: co},
				"transactorSession": &bsc.SimpleValidatorTransactorSession{Contract: &x.SimpleValidatorTransactor, TransactOpts: to},
				"raw":               &bsc.SimpleValidatorRaw{Contract: x},
				"callerRaw":         &bsc.SimpleValidatorCallerRaw{Contract: &x.SimpleValidatorCaller},
				"transactorRaw":     &bsc.SimpleValidatorTransactorRaw{Contract: &x.SimpleValidatorTransactor},
			}
		},
	},
	{
		name: "bsc.System", meta: bsc.SystemMetaData, abi: &bsc.SystemABI, bin: bsc.SystemBin, deploy: bsc.DeploySystem,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSystem(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSystemCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSystemTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewSystemFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.System)
			return map[string]any{
				"session":           &bsc.SystemSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.SystemCallerSession{Contract: &x.SystemCaller, CallOpts: co},
				"transactorSession": &bsc.SystemTransactorSession{Contract: &x.SystemTransactor, TransactOpts: to},
				"raw":               &bsc.SystemRaw{Contract: x},
				"callerRaw":         &bsc.SystemCallerRaw{Contract: &x.SystemCaller},
				"transactorRaw":     &bsc.SystemTransactorRaw{Contract: &x.SystemTransactor},
			}
		},
	},
	{
		name: "bsc.TENDERMINTLIGHTPROTOGLOBALENUMS", meta: bsc.TENDERMINTLIGHTPROTOGLOBALENUMSMetaData, abi: &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSABI, bin: bsc.TENDERMINTLIGHTPROTOGLOBALENUMSBin, deploy: bsc.DeployTENDERMINTLIGHTPROTOGLOBALENUMS,
		full: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMS(a, b)
		},
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.TENDERMINTLIGHTPROTOGLOBALENUMS)
			return map[string]any{
				"session":           &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSCallerSession{Contract: &x.TENDERMINTLIGHTPROTOGLOBALENUMSCaller, CallOpts: co},
				"transactorSession": &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSTransactorSession{Contract: &x.TENDERMINTLIGHTPROTOGLOBALENUMSTransactor, TransactOpts: to},
				"raw":               &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSRaw{Contract: x},
				"callerRaw":         &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSCallerRaw{Contract: &x.TENDERMINTLIGHTPROTOGLOBALENUMSCaller},
				"transactorRaw":     &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSTransactorRaw{Contract: &x.TENDERMINTLIGHTPROTOGLOBALENUMSTransactor},
			}
		},
	},
	{
		name: "bsc.Tendermint", meta: bsc.TendermintMetaData, abi: &bsc.TendermintABI, bin: bsc.TendermintBin, deploy: bsc.DeployTendermint,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTendermint(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTendermintCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTendermintTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTendermintFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Tendermint)
			return map[string]any{
				"session":           &bsc.TendermintSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.TendermintCallerSession{Contract: &x.TendermintCaller, CallOpts: co},
				"transactorSession": &bsc.TendermintTransactorSession{Contract: &x.TendermintTransactor, TransactOpts: to},
				"raw":               &bsc.TendermintRaw{Contract: x},
				"callerRaw":         &bsc.TendermintCallerRaw{Contract: &x.TendermintCaller},
				"transactorRaw":     &bsc.TendermintTransactorRaw{Contract: &x.TendermintTransactor},
			}
		},
	},
	{
		name: "bsc.TendermintHelper", meta: bsc.TendermintHelperMetaData, abi: &bsc.TendermintHelperABI, bin: bsc.TendermintHelperBin, deploy: bsc.DeployTendermintHelper,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTendermintHelper(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTendermintHelperCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTendermintHelperTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTendermintHelperFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.TendermintHelper)
			return map[string]any{
				"session":           &bsc.TendermintHelperSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.TendermintHelperCallerSession{Contract: &x.TendermintHelperCaller, CallOpts: co},
				"transactorSession": &bsc.TendermintHelperTransactorSession{Contract: &x.TendermintHelperTransactor, TransactOpts: to},
				"raw":               &bsc.TendermintHelperRaw{Contract: x},
				"callerRaw":         &bsc.TendermintHelperCallerRaw{Contract: &x.TendermintHelperCaller},
				"transactorRaw":     &bsc.TendermintHelperTransactorRaw{Contract: &x.TendermintHelperTransactor},
			}
		},
	},
	{
		name: "bsc.TendermintLightClient", meta: bsc.TendermintLightClientMetaData, abi: &bsc.TendermintLightClientABI, bin: bsc.TendermintLightClientBin, deploy: bsc.DeployTendermintLightClient,
		full: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTendermintLightClient(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTendermintLightClientCaller(a, b)
		},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTendermintLightClientTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewTendermintLightClientFilterer(a, b)
		},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.TendermintLightClient)
			return map[string]any{
				"session":           &bsc.TendermintLightClientSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.TendermintLightClientCallerSession{Contract: &x.TendermintLightClientCaller, CallOpts: co},
				"transactorSession": &bsc.TendermintLightClientTransactorSession{Contract: &x.TendermintLightClientTransactor, TransactOpts: to},
				"raw":               &bsc.TendermintLightClientRaw{Contract: x},
				"callerRaw":         &bsc.TendermintLightClientCallerRaw{Contract: &x.TendermintLightClientCaller},
				"transactorRaw":     &bsc.TendermintLightClientTransactorRaw{Contract: &x.TendermintLightClientTransactor},
			}
		},
	},
	{
		name: "bsc.Timestamp", meta: bsc.TimestampMetaData, abi: &bsc.TimestampABI, bin: bsc.TimestampBin, deploy: bsc.DeployTimestamp,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTimestamp(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTimestampCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTimestampTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTimestampFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Timestamp)
			return map[string]any{
				"session":           &bsc.TimestampSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.TimestampCallerSession{Contract: &x.TimestampCaller, CallOpts: co},
				"transactorSession": &bsc.TimestampTransactorSession{Contract: &x.TimestampTransactor, TransactOpts: to},
				"raw":               &bsc.TimestampRaw{Contract: x},
				"callerRaw":         &bsc.TimestampCallerRaw{Contract: &x.TimestampCaller},
				"transactorRaw":     &bsc.TimestampTransactorRaw{Contract: &x.TimestampTransactor},
			}
		},
	},
	{
		name: "bsc.TmHeader", meta: bsc.TmHeaderMetaData, abi: &bsc.TmHeaderABI, bin: bsc.TmHeaderBin, deploy: bsc.DeployTmHeader,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTmHeader(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTmHeaderCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTmHeaderTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewTmHeaderFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.TmHeader)
			return map[string]any{
				"session":           &bsc.TmHeaderSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.TmHeaderCallerSession{Contract: &x.TmHeaderCaller, CallOpts: co},
				"transactorSession": &bsc.TmHeaderTransactorSession{Contract: &x.TmHeaderTransactor, TransactOpts: to},
				"raw":               &bsc.TmHeaderRaw{Contract: x},
				"callerRaw":         &bsc.TmHeaderCallerRaw{Contract: &x.TmHeaderCaller},
				"transactorRaw":     &bsc.TmHeaderTransactorRaw{Contract: &x.TmHeaderTransactor},
			}
		},
	},
	{
		name: "bsc.Validator", meta: bsc.ValidatorMetaData, abi: &bsc.ValidatorABI, bin: bsc.ValidatorBin, deploy: bsc.DeployValidator,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidator(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidatorCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidatorTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidatorFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Validator)
			return map[string]any{
				"session":           &bsc.ValidatorSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ValidatorCallerSession{Contract: &x.ValidatorCaller, CallOpts: co},
				"transactorSession": &bsc.ValidatorTransactorSession{Contract: &x.ValidatorTransactor, TransactOpts: to},
				"raw":               &bsc.ValidatorRaw{Contract: x},
				"callerRaw":         &bsc.ValidatorCallerRaw{Contract: &x.ValidatorCaller},
				"transactorRaw":     &bsc.ValidatorTransactorRaw{Contract: &x.ValidatorTransactor},
			}
		},
	},
	{
		name: "bsc.ValidatorSet", meta: bsc.ValidatorSetMetaData, abi: &bsc.ValidatorSetABI, bin: bsc.ValidatorSetBin, deploy: bsc.DeployValidatorSet,
		full:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidatorSet(a, b) },
		caller: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidatorSetCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {
			return bsc.NewValidatorSetTransactor(a, b)
		},
		filterer: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewValidatorSetFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.ValidatorSet)
			return map[string]any{
				"session":           &bsc.ValidatorSetSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.ValidatorSetCallerSession{Contract: &x.ValidatorSetCaller, CallOpts: co},
				"transactorSession": &bsc.ValidatorSetTransactorSession{Contract: &x.ValidatorSetTransactor, TransactOpts: to},
				"raw":               &bsc.ValidatorSetRaw{Contract: x},
				"callerRaw":         &bsc.ValidatorSetCallerRaw{Contract: &x.ValidatorSetCaller},
				"transactorRaw":     &bsc.ValidatorSetTransactorRaw{Contract: &x.ValidatorSetTransactor},
			}
		},
	},
	{
		name: "bsc.Vote", meta: bsc.VoteMetaData, abi: &bsc.VoteABI, bin: bsc.VoteBin, deploy: bsc.DeployVote,
		full:       func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewVote(a, b) },
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewVoteCaller(a, b) },
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewVoteTransactor(a, b) },
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) { return bsc.NewVoteFilterer(a, b) },
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {
			x := c.(*bsc.Vote)
			return map[string]any{
				"session":           &bsc.VoteSession{Contract: x, CallOpts: co, TransactOpts: to},
				"callerSession":     &bsc.VoteCallerSession{Contract: &x.VoteCaller, CallOpts: co},
				"transactorSession": &bsc.VoteTransactorSession{Contract: &x.VoteTransactor, TransactOpts: to},
				"raw":               &bsc.VoteRaw{Contract: x},
				"callerRaw":         &bsc.VoteCallerRaw{Contract: &x.VoteCaller},
				"transactorRaw":     &bsc.VoteTransactorRaw{Contract: &x.VoteTransactor},
			}
		},
	},
}
