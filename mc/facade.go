package main

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
)

// newVaultFacade wires the vault facade like 1pass-app/main.go does.
func newVaultFacade(configDir string) facade.VaultFacade {
	configRepo := file.NewFileConfigRepo(configDir)
	crypto := pbkdf2.NewPbkdf2CryptoUtils()
	itemRepo := file.NewFileItemRepo()
	profileRepo := file.NewFileProfileRepo()
	configService := service.NewDfltConfigService(configRepo)
	keyService := service.NewDfltKeyService(crypto, profileRepo)
	itemService := service.NewDfltItemService(keyService, itemRepo)
	vaultService := service.NewDfltVaultService(itemRepo, profileRepo)
	return facade.NewDfltVaultFacade(configService, itemService, keyService, vaultService)
}

func newConfigFacade(configDir string) facade.ConfigFacade {
	return facade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(configDir)))
}

// open validates and unlocks; outcome "" and nil error mean success.
func openVault(f facade.VaultFacade, path, password string) (out string, err error) {
	out = guard(func() {
		v := domain.NewVault(path)
		if err = f.Validate(v); err != nil {
			return
		}
		err = f.Unlock(v, password)
	})
	return
}
