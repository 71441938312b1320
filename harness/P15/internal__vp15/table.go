package vp15

import (
	"github.com/go-json-experiment/json"
	"github.com/typescript-eslint/tsgolint/internal/rules/consistent_return"
	"github.com/typescript-eslint/tsgolint/internal/rules/consistent_type_exports"
	"github.com/typescript-eslint/tsgolint/internal/rules/dot_notation"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_base_to_string"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_confusing_void_expression"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_deprecated"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_duplicate_type_constituents"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_floating_promises"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_meaningless_void_operator"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_misused_promises"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_misused_spread"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_unnecessary_boolean_literal_compare"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_unnecessary_condition"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_unnecessary_type_assertion"
	"github.com/typescript-eslint/tsgolint/internal/rules/no_unsafe_member_access"
	"github.com/typescript-eslint/tsgolint/internal/rules/only_throw_error"
	"github.com/typescript-eslint/tsgolint/internal/rules/prefer_nullish_coalescing"
	"github.com/typescript-eslint/tsgolint/internal/rules/prefer_optional_chain"
	"github.com/typescript-eslint/tsgolint/internal/rules/prefer_promise_reject_errors"
	"github.com/typescript-eslint/tsgolint/internal/rules/prefer_readonly"
	"github.com/typescript-eslint/tsgolint/internal/rules/prefer_readonly_parameter_types"
	"github.com/typescript-eslint/tsgolint/internal/rules/prefer_string_starts_ends_with"
	"github.com/typescript-eslint/tsgolint/internal/rules/promise_function_async"
	"github.com/typescript-eslint/tsgolint/internal/rules/require_array_sort_compare"
	"github.com/typescript-eslint/tsgolint/internal/rules/restrict_plus_operands"
	"github.com/typescript-eslint/tsgolint/internal/rules/restrict_template_expressions"
	"github.com/typescript-eslint/tsgolint/internal/rules/strict_boolean_expressions"
	"github.com/typescript-eslint/tsgolint/internal/rules/strict_void_return"
	"github.com/typescript-eslint/tsgolint/internal/rules/switch_exhaustiveness_check"
	"github.com/typescript-eslint/tsgolint/internal/rules/unbound_method"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

func read[T any](o any) (string, T) {
	t := utils.UnmarshalOptions[T](o, "rule")
	b, err := json.Marshal(t)
	if err != nil {
		return "", t
	}
	return string(b), t
}

// The options of all rules and their documented defaults: s is a string, l a list of
// strings, a a list of specifiers (names of the library), o an optional string,
// e an optional always or never, p a boolean or an object.
var rules = []ruleOptions{
	{"ConsistentReturn", []option{{"treatUndefinedAsUnspecified", "false"}}, func(o any) string { s, _ := read[consistent_return.ConsistentReturnOptions](o); return s }},
	{"ConsistentTypeExports", []option{{"fixMixedExportsWithInlineTypeSpecifier", "false"}}, func(o any) string { s, _ := read[consistent_type_exports.ConsistentTypeExportsOptions](o); return s }},
	{"DotNotation", []option{{"allowIndexSignaturePropertyAccess", "false"}, {"allowKeywords", "true"}, {"allowPattern", "s:"}, {"allowPrivateClassPropertyAccess", "false"}, {"allowProtectedClassPropertyAccess", "false"}}, func(o any) string { s, _ := read[dot_notation.DotNotationOptions](o); return s }},
	{"NoBaseToString", []option{{"checkUnknown", "false"}, {"ignoredTypeNames", "l:Error,RegExp,URL,URLSearchParams"}}, func(o any) string { s, _ := read[no_base_to_string.NoBaseToStringOptions](o); return s }},
	{"NoConfusingVoidExpression", []option{{"ignoreArrowShorthand", "false"}, {"ignoreVoidOperator", "false"}, {"ignoreVoidReturningFunctions", "false"}}, func(o any) string {
		s, _ := read[no_confusing_void_expression.NoConfusingVoidExpressionOptions](o)
		return s
	}},
	{"NoDeprecated", []option{{"allow", "a:"}}, func(o any) string { s, _ := read[no_deprecated.NoDeprecatedOptions](o); return s }},
	{"NoDuplicateTypeConstituents", []option{{"ignoreIntersections", "false"}, {"ignoreUnions", "false"}}, func(o any) string {
		s, _ := read[no_duplicate_type_constituents.NoDuplicateTypeConstituentsOptions](o)
		return s
	}},
	{"NoFloatingPromises", []option{{"allowForKnownSafeCalls", "a:"}, {"allowForKnownSafePromises", "a:"}, {"checkThenables", "false"}, {"ignoreIIFE", "false"}, {"ignoreVoid", "true"}}, func(o any) string { s, _ := read[no_floating_promises.NoFloatingPromisesOptions](o); return s }},
	{"NoMeaninglessVoidOperator", []option{{"checkNever", "false"}}, func(o any) string {
		s, _ := read[no_meaningless_void_operator.NoMeaninglessVoidOperatorOptions](o)
		return s
	}},
	{"ChecksVoidReturn", []option{{"arguments", "true"}, {"attributes", "true"}, {"inheritedMethods", "true"}, {"properties", "true"}, {"returns", "true"}, {"variables", "true"}}, func(o any) string { s, _ := read[no_misused_promises.ChecksVoidReturnOptions](o); return s }},
	{"NoMisusedPromises", []option{{"checksConditionals", "true"}, {"checksSpreads", "true"}, {"checksVoidReturn", "true"}}, func(o any) string { s, _ := read[no_misused_promises.NoMisusedPromisesOptions](o); return s }},
	{"NoMisusedSpread", []option{{"allow", "a:"}}, func(o any) string { s, _ := read[no_misused_spread.NoMisusedSpreadOptions](o); return s }},
	{"NoUnnecessaryBooleanLiteralCompare", []option{{"allowComparingNullableBooleansToFalse", "true"}, {"allowComparingNullableBooleansToTrue", "true"}}, func(o any) string {
		s, _ := read[no_unnecessary_boolean_literal_compare.NoUnnecessaryBooleanLiteralCompareOptions](o)
		return s
	}},
	{"NoUnnecessaryCondition", []option{{"allowConstantLoopConditions", "s:never"}, {"checkTypePredicates", "false"}}, func(o any) string { s, _ := read[no_unnecessary_condition.NoUnnecessaryConditionOptions](o); return s }},
	{"NoUnnecessaryTypeAssertion", []option{{"checkLiteralConstAssertions", "false"}, {"typesToIgnore", "l:"}}, func(o any) string {
		s, _ := read[no_unnecessary_type_assertion.NoUnnecessaryTypeAssertionOptions](o)
		return s
	}},
	{"NoUnsafeMemberAccess", []option{{"allowOptionalChaining", "false"}}, func(o any) string { s, _ := read[no_unsafe_member_access.NoUnsafeMemberAccessOptions](o); return s }},
	{"OnlyThrowError", []option{{"allow", "a:"}, {"allowRethrowing", "true"}, {"allowThrowingAny", "true"}, {"allowThrowingUnknown", "true"}}, func(o any) string { s, _ := read[only_throw_error.OnlyThrowErrorOptions](o); return s }},
	{"IgnorePrimitives", []option{{"bigint", "false"}, {"boolean", "false"}, {"number", "false"}, {"string", "false"}}, func(o any) string { s, _ := read[prefer_nullish_coalescing.IgnorePrimitivesOptions](o); return s }},
	{"PreferNullishCoalescing", []option{{"ignoreBooleanCoercion", "false"}, {"ignoreConditionalTests", "true"}, {"ignoreIfStatements", "false"}, {"ignoreMixedLogicalExpressions", "false"}, {"ignorePrimitives", "p:"}, {"ignoreTernaryTests", "false"}}, func(o any) string {
		s, _ := read[prefer_nullish_coalescing.PreferNullishCoalescingOptions](o)
		return s
	}},
	{"PreferOptionalChain", []option{{"allowPotentiallyUnsafeFixesThatModifyTheReturnTypeIKnowWhatImDoing", "false"}, {"checkAny", "true"}, {"checkBigInt", "true"}, {"checkBoolean", "true"}, {"checkNumber", "true"}, {"checkString", "true"}, {"checkUnknown", "true"}, {"requireNullish", "false"}}, func(o any) string { s, _ := read[prefer_optional_chain.PreferOptionalChainOptions](o); return s }},
	{"PreferPromiseRejectErrors", []option{{"allow", "a:"}, {"allowEmptyReject", "false"}, {"allowThrowingAny", "false"}, {"allowThrowingUnknown", "false"}}, func(o any) string {
		s, _ := read[prefer_promise_reject_errors.PreferPromiseRejectErrorsOptions](o)
		return s
	}},
	{"PreferReadonly", []option{{"onlyInlineLambdas", "false"}}, func(o any) string { s, _ := read[prefer_readonly.PreferReadonlyOptions](o); return s }},
	{"PreferReadonlyParameterTypes", []option{{"allow", "a:"}, {"checkParameterProperties", "true"}, {"ignoreInferredTypes", "false"}, {"treatMethodsAsReadonly", "false"}}, func(o any) string {
		s, _ := read[prefer_readonly_parameter_types.PreferReadonlyParameterTypesOptions](o)
		return s
	}},
	{"PreferStringStartsEndsWith", []option{{"allowSingleElementEquality", "e:"}}, func(o any) string {
		s, _ := read[prefer_string_starts_ends_with.PreferStringStartsEndsWithOptions](o)
		return s
	}},
	{"PromiseFunctionAsync", []option{{"allowAny", "true"}, {"allowedPromiseNames", "l:"}, {"checkArrowFunctions", "true"}, {"checkFunctionDeclarations", "true"}, {"checkFunctionExpressions", "true"}, {"checkMethodDeclarations", "true"}}, func(o any) string { s, _ := read[promise_function_async.PromiseFunctionAsyncOptions](o); return s }},
	{"RequireArraySortCompare", []option{{"ignoreStringArrays", "true"}}, func(o any) string {
		s, _ := read[require_array_sort_compare.RequireArraySortCompareOptions](o)
		return s
	}},
	{"RestrictPlusOperands", []option{{"allowAny", "true"}, {"allowBoolean", "true"}, {"allowNullish", "true"}, {"allowNumberAndString", "true"}, {"allowRegExp", "true"}, {"skipCompoundAssignments", "false"}}, func(o any) string { s, _ := read[restrict_plus_operands.RestrictPlusOperandsOptions](o); return s }},
	{"RestrictTemplateExpressions", []option{{"allow", "a:Error,URL,URLSearchParams"}, {"allowAny", "true"}, {"allowArray", "false"}, {"allowBoolean", "true"}, {"allowNever", "false"}, {"allowNullish", "true"}, {"allowNumber", "true"}, {"allowRegExp", "true"}}, func(o any) string {
		s, _ := read[restrict_template_expressions.RestrictTemplateExpressionsOptions](o)
		return s
	}},
	{"StrictBooleanExpressions", []option{{"allowAny", "false"}, {"allowNullableBoolean", "false"}, {"allowNullableEnum", "false"}, {"allowNullableNumber", "false"}, {"allowNullableObject", "true"}, {"allowNullableString", "false"}, {"allowNumber", "true"}, {"allowString", "true"}}, func(o any) string {
		s, _ := read[strict_boolean_expressions.StrictBooleanExpressionsOptions](o)
		return s
	}},
	{"StrictVoidReturn", []option{{"allowReturnAny", "false"}}, func(o any) string { s, _ := read[strict_void_return.StrictVoidReturnOptions](o); return s }},
	{"SwitchExhaustivenessCheck", []option{{"allowDefaultCaseForExhaustiveSwitch", "true"}, {"considerDefaultExhaustiveForUnions", "false"}, {"defaultCaseCommentPattern", "o:"}, {"requireDefaultForNonUnion", "false"}}, func(o any) string {
		s, _ := read[switch_exhaustiveness_check.SwitchExhaustivenessCheckOptions](o)
		return s
	}},
	{"UnboundMethod", []option{{"ignoreStatic", "false"}}, func(o any) string { s, _ := read[unbound_method.UnboundMethodOptions](o); return s }},
}
