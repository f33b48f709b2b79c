package radix

property R01: NewTrie, NewTrieBy, (*trieS).Set, (*trieS).SetEx, (*trieS).Insert, (*trieS).SetNode, (*trieS).SetEmpty, (*trieS).Update, (*trieS).Get, (*trieS).MustGet, (*trieS).Query, (*trieS).GetEx, (*trieS).Locate
property R02: NewTrie, (*trieS).Has, (*trieS).Search, (*trieS).Get, (*trieS).MustGet, (*trieS).Query, (*trieS).Set, (*trieS).GetEx, (*trieS).Locate
property R03: (*trieS).Remove, (*trieS).RemoveEx, (*trieS).Has, (*trieS).Get, (*trieS).Set
property R04: (*trieS).Set, (*trieS).SetEx, (*trieS).SetNode, (*trieS).SetComment, (*trieS).SetTag, (*trieS).GetDesc, (*trieS).GetComment, (*trieS).GetTag, (*trieS).MustGetDesc, (*trieS).MustGetComment, (*trieS).MustGetTag, (*trieS).RemoveEx
property R05: (*trieS).Dup, lemmaDup, lemmaCloneSet, lemmaCloneRemove, lemmaCloneNote, lemmaOriginSet, lemmaOriginRemove, lemmaOriginNote
property R06: (*trieS).Join, (*trieS).join1, (*trieS).WithPrefix, (*trieS).WithPrefixReplaced, (*trieS).SetPrefix, (*trieS).N, (*trieS).R, (*trieS).BR
property R07: (*trieS).Walk, (*nodeS).Walk, (*trieS).GetR, (*trieS).GetM, (*trieS).MustR, (*trieS).MustM
property R18: (*trieS).Get@up, (*trieS).MustGet@up, (*trieS).Query@up, (*trieS).Get, (*trieS).MustGet, (*trieS).Query, (*trieS).BR, (*trieS).N
property R20: (*trieS).Query@route, (*trieS).Locate@route, (*trieS).Set@one, extractor
property R08: (*trieS).Merge, (*trieS).Set, (*trieS).Get
property R09: (*trieS).GetString, (*trieS).MustString, (*trieS).GetStringSlice, (*trieS).MustStringSlice, (*trieS).GetStringMap, (*trieS).MustStringMap, (*trieS).GetBool, (*trieS).MustBool, (*trieS).GetBoolSlice, (*trieS).MustBoolSlice, (*trieS).GetBoolMap, (*trieS).MustBoolMap, (*trieS).GetDuration, (*trieS).MustDuration, (*trieS).GetDurationSlice, (*trieS).MustDurationSlice, (*trieS).GetDurationMap, (*trieS).MustDurationMap, (*trieS).GetTime, (*trieS).MustTime, (*trieS).GetTimeSlice, (*trieS).MustTimeSlice, (*trieS).GetTimeMap, (*trieS).MustTimeMap, (*trieS).GetInt, (*trieS).MustInt, (*trieS).GetIntSlice, (*trieS).MustIntSlice, (*trieS).GetIntMap, (*trieS).MustIntMap, (*trieS).GetUint, (*trieS).MustUint, (*trieS).GetUintSlice, (*trieS).MustUintSlice, (*trieS).GetUintMap, (*trieS).MustUintMap, (*trieS).GetInt8, (*trieS).MustInt8, (*trieS).GetInt8Slice, (*trieS).MustInt8Slice, (*trieS).GetInt8Map, (*trieS).MustInt8Map, (*trieS).GetUint8, (*trieS).MustUint8, (*trieS).GetUint8Slice, (*trieS).MustUint8Slice, (*trieS).GetUint8Map, (*trieS).MustUint8Map, (*trieS).GetInt16, (*trieS).MustInt16, (*trieS).GetInt16Slice, (*trieS).MustInt16Slice, (*trieS).GetInt16Map, (*trieS).MustInt16Map, (*trieS).GetUint16, (*trieS).MustUint16, (*trieS).GetUint16Slice, (*trieS).MustUint16Slice, (*trieS).GetUint16Map, (*trieS).MustUint16Map, (*trieS).GetInt32, (*trieS).MustInt32, (*trieS).GetInt32Slice, (*trieS).MustInt32Slice, (*trieS).GetInt32Map, (*trieS).MustInt32Map, (*trieS).GetUint32, (*trieS).MustUint32, (*trieS).GetUint32Slice, (*trieS).MustUint32Slice, (*trieS).GetUint32Map, (*trieS).MustUint32Map, (*trieS).GetInt64, (*trieS).MustInt64, (*trieS).GetInt64Slice, (*trieS).MustInt64Slice, (*trieS).GetInt64Map, (*trieS).MustInt64Map, (*trieS).GetUint64, (*trieS).MustUint64, (*trieS).GetUint64Slice, (*trieS).MustUint64Slice, (*trieS).GetUint64Map, (*trieS).MustUint64Map, (*trieS).GetFloat64, (*trieS).MustFloat64, (*trieS).GetFloat64Slice, (*trieS).MustFloat64Slice, (*trieS).GetFloat64Map, (*trieS).MustFloat64Map, (*trieS).GetFloat32, (*trieS).MustFloat32, (*trieS).GetFloat32Slice, (*trieS).MustFloat32Slice, (*trieS).GetFloat32Map, (*trieS).MustFloat32Map, (*trieS).GetComplex128, (*trieS).MustComplex128, (*trieS).GetComplex128Slice, (*trieS).MustComplex128Slice, (*trieS).GetComplex128Map, (*trieS).MustComplex128Map, (*trieS).GetComplex64, (*trieS).MustComplex64, (*trieS).GetComplex64Slice, (*trieS).MustComplex64Slice, (*trieS).GetComplex64Map, (*trieS).MustComplex64Map, (*trieS).GetKibiBytes, (*trieS).MustKibiBytes, (*trieS).GetKiloBytes, (*trieS).MustKiloBytes

package store

property R01: (*storeS).Set, (*storeS).Get, (*storeS).MustGet
property R02: (*storeS).Has, (*storeS).Get, (*storeS).MustGet
property R03: (*storeS).Remove, (*storeS).RemoveEx
property R04: (*storeS).Set
property R05: (*storeS).Dup, (*storeS).Clone
property R06: (*storeS).WithPrefix, (*storeS).WithPrefixReplaced, (*storeS).SetPrefix, (*storeS).N, (*storeS).R, (*storeS).BR, (*storeS).join, (*storeS).Get, (*storeS).Set, (*storeS).Has, (*storeS).Remove
property R11: (*storeS).Set, (*storeS).Remove, (*storeS).RemoveEx, (*storeS).tryOnSet, (*storeS).tryOnDelete
property R08: (*storeS).Merge, (*storeS).loadMapDedicated, (*storeS).Get
property R10: (*storeS).Load, (*storeS).Merge, (*storeS).Set, lemmaWithin, lemmaWithinSet
property R18: (*storeS).Get@up, (*storeS).MustGet@up, (*storeS).Get, (*storeS).MustGet, (*storeS).BR, (*storeS).N
property R19: (*storeS).applyChanges, (*storeS).applyExternalChanges

package times

property R12: SmartDurationString, SmartDurationStringEx, shortDur, fmtInt, fmtFrac, ParseDuration, MustParseDuration, leadingInt, leadingFraction

package cvt

property R14: Deflate
