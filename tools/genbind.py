#!/usr/bin/env python3
"""Writes harness/cmd/bind/registry.go: every contract binding of /repo (rerun when contracts are added)."""
import re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['// Code generated by tools/genbind.py. DO NOT EDIT.', '', 'package main', '', 'import (',
       '\t"github.com/brevis-network/zk-utils/common/bsc"', '\t"github.com/brevis-network/zk-utils/common/eth"',
       '\t"github.com/ethereum/go-ethereum/accounts/abi/bind"', '\t"github.com/ethereum/go-ethereum/common"', ')', '',
       'var registry = []entry{']
for pk in ('eth', 'bsc'):
    s = open(f'/repo/common/{pk}/bindings.go').read()
    deploy = set(re.findall(r'^func Deploy(\w+)\(', s, re.M))
    bins = set(re.findall(r'^var (\w+)Bin = ', s, re.M))
    for n in re.findall(r'^var (\w+)MetaData = ', s, re.M):
        P = f'{pk}.{n}'
        d = f'{pk}.Deploy{n}' if n in deploy else 'nil'
        b = f'{P}Bin' if n in bins else '""'
        out.append(f'''	{{
		name: "{P}", meta: {P}MetaData, abi: &{P}ABI, bin: {b}, deploy: {d},
		full:       func(a common.Address, b bind.ContractBackend) (any, error) {{ return {pk}.New{n}(a, b) }},
		caller:     func(a common.Address, b bind.ContractBackend) (any, error) {{ return {pk}.New{n}Caller(a, b) }},
		transactor: func(a common.Address, b bind.ContractBackend) (any, error) {{ return {pk}.New{n}Transactor(a, b) }},
		filterer:   func(a common.Address, b bind.ContractBackend) (any, error) {{ return {pk}.New{n}Filterer(a, b) }},
		wrap: func(c any, co bind.CallOpts, to bind.TransactOpts) map[string]any {{
			x := c.(*{P})
			return map[string]any{{
				"session":           &{P}Session{{Contract: x, CallOpts: co, TransactOpts: to}},
				"callerSession":     &{P}CallerSession{{Contract: &x.{n}Caller, CallOpts: co}},
				"transactorSession": &{P}TransactorSession{{Contract: &x.{n}Transactor, TransactOpts: to}},
				"raw":               &{P}Raw{{Contract: x}},
				"callerRaw":         &{P}CallerRaw{{Contract: &x.{n}Caller}},
				"transactorRaw":     &{P}TransactorRaw{{Contract: &x.{n}Transactor}},
			}}
		}},
	}},''')
out.append('}')
open(root + '/harness/cmd/bind/registry.go', 'w').write('\n'.join(out) + '\n')
